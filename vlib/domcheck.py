"""Decides, for all points, whether the results of drv/domop.c are right."""
import os, re, time, random, itertools
import z3
from . import common, sets, cloogfile

_G = {}


class Case:
    def __init__(self, name, np, n, doms, scats=(), what=31):
        self.name, self.np, self.n, self.doms, self.scats, self.what = name, np, n, doms, list(scats), what

    def text(self):
        o = ['%d %d' % (self.np, self.n), str(len(self.doms))]
        o += [d.text() for d in self.doms]
        o.append(str(len(self.scats)))
        for ns, rows in self.scats:
            o.append('%d\n%d' % (ns, len(rows)))
            o += [' '.join(map(str, r)) for r in rows]
        return '\n'.join(o) + '\n'


def exact_project(rows, n, keep):
    """Fourier-Motzkin with unit coefficients only; None when inexact."""
    rows = [list(r) for r in rows]
    for d in range(n - 1, keep - 1, -1):
        c = 1 + d
        eq = next((r for r in rows if r[0] == 0 and abs(r[c]) == 1), None)
        if eq is not None:
            new = []
            for r in rows:
                if r is eq:
                    continue
                k = -r[c] * eq[c]
                new.append([r[0]] + [a + k * b for a, b in zip(r[1:], eq[1:])])
            rows = new
            continue
        if any(r[0] == 0 and r[c] for r in rows):
            return None
        lo = [r for r in rows if r[c] > 0]
        hi = [r for r in rows if r[c] < 0]
        if any(r[c] > 1 for r in lo) and any(r[c] < -1 for r in hi):
            return None
        rows = [r for r in rows if r[c] == 0] + \
            [[1] + [-h[c] * a + l[c] * b for a, b in zip(l[1:], h[1:])] for l in lo for h in hi]
        if len(rows) > 60:
            return None
    return [r[:1 + keep] + r[1 + n:] for r in rows]


class Judge:
    def __init__(self, case, res, timeout_ms=3000):
        self.k, self.r = case, res
        self.S = sets.Solver(timeout_ms)
        self.bad, self.n_obl, self.n_dis, self.unk = [], 0, 0, []
        self.ops = {}
        n, np = case.n, case.np
        self.x = [z3.Int('x%d' % i) for i in range(n)]
        self.y = [z3.Int('y%d' % i) for i in range(n)]
        self.p = [z3.Int('p%d' % i) for i in range(np)]

    def never(self, op, fs, vars_, conc, msg):
        """The formulas fs have no model; conc re-evaluates a model."""
        self.n_obl += 1
        m = self.S.sat(fs, vars_)
        self.ops[op.split(':')[0]] = self.ops.get(op.split(':')[0], 0) + 1
        if m is None:
            self.n_dis += 1
        elif m == 'unknown':
            self.unk.append(op)
        elif conc(m):
            self.bad.append((op, '%s: %s' % (msg, ', '.join('%s=%d' % (v, a) for v, a in zip(vars_, m)))))
        else:
            self.unk.append(op + ' (model not reproduced)')

    def ever(self, op, fs, vars_, msg):
        self.n_obl += 1
        m = self.S.sat(fs, vars_)
        if m == 'unknown':
            self.unk.append(op)
        elif m is None:
            self.bad.append((op, msg))
        else:
            self.n_dis += 1

    def fact(self, op, ok, msg):
        self.n_obl += 1
        if ok:
            self.n_dis += 1
        else:
            self.bad.append((op, msg))

    def equal(self, op, A, B, x, p, msg):
        self.never(op, [z3.Xor(A.z(x, p), B.z(x, p))], x + p,
                   lambda m: A.c(m[:len(x)], m[len(x):]) != B.c(m[:len(x)], m[len(x):]), msg)

    def dims(self, op, s, n, np):
        if s is None:
            self.fact(op, False, '%s: no result' % op)
            return False
        self.fact(op, (s.n, s.np) == (n, np), '%s has %d dimensions and %d parameters, not %d and %d' % (op, s.n, s.np, n, np))
        return (s.n, s.np) == (n, np)

    # -- the operations ------------------------------------------------------
    def run(self):
        k, r, x, y, p = self.k, self.r, self.x, self.y, self.p
        n, np, D = k.n, k.np, k.doms
        for i, d in enumerate(D):
            op = 'in:%d' % i
            if op in r and self.dims(op, r[op], n, np):
                self.equal(op, r[op], d, x, p, 'the domain made from the matrix differs from it at')
        for i, (ns, rows) in enumerate(k.scats):
            op = 'scat:%d' % i
            if op in r and self.dims(op, r[op], n + ns, np):
                c = [z3.Int('c%d' % j) for j in range(ns)]
                sp = Scat(rows, ns, n, np)
                self.never(op, [z3.Xor(r[op].z(x + c, p), sp.z(c, x, p))], x + c + p,
                           lambda m, sp=sp, op=op, ns=ns: r[op].c(m[:n + ns], m[n + ns:]) != sp.c(m[n:n + ns], m[:n], m[n + ns:]),
                           'the scattering made from the matrix differs from it at')
        if self.bad:
            return self          # everything after depends on the inputs
        for i, d in enumerate(D):
            self.one(i, d)
        for i, j in itertools.product(range(len(D)), repeat=2):
            self.pair(i, j)
        self.lstride()
        self.sort()
        self.scatter()
        self.constructors()
        return self

    def one(self, i, d):
        k, r, x, y, p = self.k, self.r, self.x, self.y, self.p
        n, np = k.n, k.np
        g = lambda op: r.get('%s:%d' % (op, i))
        nm = lambda op: '%s:%d' % (op, i)
        if nm('dims') not in r:
            self.constraints(i, d, None)
            return
        v = r[nm('dims')]
        self.fact('dims', v[:2] == [n, np], 'a domain of %d dimensions and %d parameters reports %s' % (n, np, v[:2]))
        m = self.S.sat([d.z(x, p)], x + p)
        if m != 'unknown':
            self.fact('isempty', v[3] == (m is None), 'cloog_domain_isempty returns %d; point %s' % (v[3], m))
            self.fact('never_integral', v[4] == (m is None), 'cloog_domain_never_integral returns %d; point %s' % (v[4], m))
        single = len(r['in:%d' % i].pieces) == 1
        self.fact('isconvex', (v[2] == 1) == (len(r['in:%d' % i].pieces) <= 1), 'cloog_domain_isconvex returns %d' % v[2])
        broken = False            # is the trusted isl operation itself wrong here?
        if nm('islcoalesce') in r:
            e = g('islcoalesce')
            m = self.S.sat([z3.Xor(e.z(x, p), d.z(x, p))], x + p)
            broken = m is not None
            if broken:
                self.unk.append('isl_set_coalesce differs from its argument')
        for op in ('copy', 'sunion', 'after'):
            if op == 'sunion' and broken:
                continue
            if nm(op) in r and self.dims(op, g(op), n, np):
                self.equal(op, g(op), d, x, p, {'after': 'the operations changed their argument', 'copy': 'cloog_domain_copy differs from its argument',
                                                'sunion': 'cloog_domain_simplify_union changes the set'}[op] + ' at')
        for op in ('convex', 'sconvex'):
            if op == 'convex' and broken:
                continue
            if nm(op) in r and self.dims(op, g(op), n, np):
                h = g(op)
                self.fact(op, len(h.pieces) <= 1, 'the %s hull is a union' % op)
                if single:
                    self.equal(op, h, d, x, p, 'the hull (%s) of a convex domain differs from it at' % op)
                else:
                    self.never(op, [d.z(x, p), z3.Not(h.z(x, p))], x + p,
                               lambda m, h=h: d.c(m[:n], m[n:]) and not h.c(m[:n], m[n:]), 'the hull (%s) misses a point of the domain' % op)
        if nm('empty') in r and self.dims('empty', g('empty'), n, np):
            e = g('empty')
            self.never('empty', [e.z(x, p)], x + p, lambda m: e.c(m[:n], m[n:]), 'cloog_domain_empty contains')
        if nm('cut') in r:
            a, b = g('cut'), g('cutrest')
            self.fact('cut', len(a.pieces) <= 1 and r[nm('cutconvex')] == 1, 'the first part of cloog_domain_cut_first is a union')
            self.fact('cut', len(b.pieces) < max(1, len(r['in:%d' % i].pieces)), 'cloog_domain_cut_first does not shorten the union')
            self.never('cut', [z3.Xor(d.z(x, p), z3.Or(a.z(x, p), b.z(x, p)))], x + p,
                       lambda m: d.c(m[:n], m[n:]) != (a.c(m[:n], m[n:]) or b.c(m[:n], m[n:])), 'cloog_domain_cut_first loses or adds a point')
        if nm('extend') in r and self.dims('extend', g('extend'), n + 1, np):
            e, w = g('extend'), z3.Int('w')
            self.never('extend', [z3.Xor(d.z(x, p), e.z(x + [w], p))], x + [w] + p,
                       lambda m: d.c(m[:n], m[n + 1:]) != e.c(m[:n + 1], m[n + 1:]), 'cloog_domain_extend differs at')
        if nm('fromctx') in r and self.dims('fromctx', g('fromctx'), n + np, 0):
            e = g('fromctx')
            self.never('fromctx', [z3.Xor(d.z(x, p), e.z(p + x, []))], x + p,
                       lambda m: d.c(m[:n], m[n:]) != e.c(m[n:] + m[:n], []), 'cloog_domain_from_context differs at')
        for l in range(n + 1):
            op = 'project:%d,%d' % (i, l)
            if op in r and self.dims(op, r[op], l, np):
                e = r[op]
                self.never(op, [d.z(x, p), z3.Not(e.z(x[:l], p))], x + p,
                           lambda m, e=e, l=l: d.c(m[:n], m[n:]) and not e.c(m[:l], m[n:]), 'cloog_domain_project(%d) misses a point' % l)
                if not any(q[1] for q in d.pieces):
                    ex = [exact_project(q[0], n, l) for q in d.pieces]
                    if None not in ex:
                        es = sets.Spec(l, np, [(q, []) for q in ex])
                        self.never(op, [e.z(x[:l], p), z3.Not(es.z(x[:l], p))], x[:l] + p,
                                   lambda m, e=e, es=es, l=l: e.c(m[:l], m[l:]) and not es.c(m[:l], m[l:]),
                                   'cloog_domain_project(%d) has a point that is no projection' % l)
        for l in range(1, n + 1):
            self.level(i, d, l)
        self.constraints(i, d, single)

    def level(self, i, d, l):
        k, r, x, p = self.k, self.r, self.x, self.p
        n, np = k.n, k.np
        t = z3.Int('t')
        xt = list(x)
        xt[l - 1] = t
        op = 'otl:%d,%d' % (i, l)
        both = [d.z(x, p), d.z(xt, p), t > x[l - 1]]
        if op in r:
            if r[op]:
                self.never(op, both, x + [t] + p, lambda m: d.c(m[:n], m[n + 1:]) and
                           d.c(m[:l - 1] + [m[n]] + m[l:n], m[n + 1:]) and m[n] != m[l - 1], 'cloog_domain_is_otl holds but two iterations exist')
            else:
                self.ever(op, both, x + [t] + p, 'cloog_domain_is_otl does not hold but the loop runs at most once')
        op = 'const:%d,%d' % (i, l - 1)
        if op in r and r[op][0]:
            v = r[op][1]
            self.never(op, [d.z(x, p), x[l - 1] != v], x + p, lambda m: d.c(m[:n], m[n:]) and m[l - 1] != v,
                       'cloog_domain_lazy_isconstant returns %d' % v)
        op = 'stride:%d,%d' % (i, l)
        if op in r:
            s, o = r[op]
            bad = (x[l - 1] + o) % s != 0 if s else x[l - 1] + o != 0
            self.fact(op, s >= 0, 'negative stride')
            if s >= 0:
                self.never(op, [d.z(x, p), bad], x + p,
                           lambda m: d.c(m[:n], m[n:]) and ((m[l - 1] + o) % s != 0 if s else m[l - 1] + o != 0),
                           'cloog_domain_stride returns (i+%d)%%%d=0' % (o, s))
        op = 'splitter:%d,%d' % (i, l)
        if op in r and self.dims(op, r[op], n, np):
            e = r[op]
            self.never(op, [z3.Not(e.z(x, p))], x + p, lambda m: not e.c(m[:n], m[n:]), 'cloog_domain_bound_splitter does not cover')
            for a, b in itertools.combinations(e.pieces[:6], 2):
                self.never(op, [a.z(x, p), b.z(x, p)], x + p, lambda m, a=a, b=b: a.c(m[:n], m[n:]) and b.c(m[:n], m[n:]),
                           'cloog_domain_bound_splitter parts overlap')
        for s, o in ((2, 0), (2, 1), (3, 0), (3, 2)):
            op = 'slb:%d,%d,%d,%d' % (i, l, s, o)
            if op in r and self.dims(op, r[op], n, np):
                self.slb(op, d, r[op], l, s, lambda xs, ps: o, r['in:%d' % i])
        op = 'unroll:%d,%d' % (i, l)
        if op in r and r[op][0]:
            nn, total = r[op]
            row = r['c/' + op][0][0]['row']
            nd = total - n - np
            a = row[l - 1]
            f = lambda xs, ps: row[-1] + sum(c * v for c, v in zip(row[:n], xs) if c) - row[l - 1] * xs[l - 1] \
                + sum(c * v for c, v in zip(row[n + nd:-1], ps) if c)
            self.fact(op, a > 0 and not any(row[n:n + nd]), 'cloog_domain_can_unroll returns no lower bound')
            if a > 0 and not any(row[n:n + nd]):
                lb = lambda xs, ps: -(f(xs, ps) / z3.IntVal(a)) if any(row[:n + nd + np]) and not isinstance(f(xs, ps), int) else -(f(xs, ps) // a)
                w = x[l - 1] - lb(x, p)
                self.never(op, [d.z(x, p), z3.Or(w < 0, w >= nn)], x + p,
                           lambda m: d.c(m[:n], m[n:]) and not 0 <= m[l - 1] - lb(m[:n], m[n:]) < nn,
                           'cloog_domain_can_unroll counts %d iterations' % nn)
                for t in range(min(5, nn)):
                    q = 'fixed:%d,%d,%d' % (i, l, t)
                    if q in r and self.dims(q, r[q], n, np):
                        e = r[q]
                        self.never(q, [z3.Xor(e.z(x, p), z3.And(d.z(x, p), w == t))], x + p,
                                   lambda m, e=e, t=t: e.c(m[:n], m[n:]) != (d.c(m[:n], m[n:]) and m[l - 1] - lb(m[:n], m[n:]) == t),
                                   'cloog_domain_fixed_offset(%d) differs' % t)

    def slb(self, op, d, e, l, s, off, inset):
        """e is d with its lower bounds moved up to x_l = off (mod s)."""
        x, p = self.x[:d.n], self.p
        n = d.n
        lat = lambda xs, ps: (xs[l - 1] - off(xs, ps)) % s == 0
        self.never(op, [z3.Xor(e.z(x, p), d.z(x, p)), lat(x, p)], x + p,
                   lambda m: lat(m[:n], m[n:]) and e.c(m[:n], m[n:]) != d.c(m[:n], m[n:]),
                   'cloog_domain_stride_lower_bound changes the points of the lattice')
        # the first iteration of a loop lies on the lattice
        if len(inset.pieces) == 1 and not any(q[l - 1] for q in inset.pieces[0].eqs):
            xm = list(x)
            xm[l - 1] = x[l - 1] - 1
            lower = [q for q in inset.pieces[0].ins if q[l - 1] > 0]
            nd = inset.pieces[0].nd
            if lower and not any(any(q[n:n + nd]) for q in inset.pieces[0].ins):
                # the previous point violates only lower bounds: all others are kept by decreasing x_l
                self.never(op, [e.z(x, p), z3.Not(e.z(xm, p)), z3.Not(lat(x, p))], x + p,
                           lambda m: e.c(m[:n], m[n:]) and not e.c(m[:l - 1] + [m[l - 1] - 1] + m[l:n], m[n:]) and not lat(m[:n], m[n:]),
                           'the first iteration after cloog_domain_stride_lower_bound is not on the lattice')

    def constraints(self, i, d, single):
        k, r, x, p = self.k, self.r, self.x, self.p
        n, np = k.n, k.np
        inn = r['in:%d' % i]
        for op in ('cons', 'conscopy'):
            key = 'c/%s:%d' % (op, i)
            if key not in r:
                continue
            cs, (total, nit) = r[key]
            nd = inn.pieces[0].nd
            self.fact(op, (total, nit) == (n + nd + np, n), 'constraint set reports %d unknowns and %d iterators' % (total, nit))
            q = sets.Piece(n, nd, np)
            q.divs = inn.pieces[0].divs
            ok = True
            for c in cs:
                if len(c['row']) != n + nd + np + 1:
                    ok = False
                    continue
                (q.eqs if c['eq'] else q.ins).append(c['row'])
                self.fact(op, c['copy'] == c['row'], 'cloog_constraint_copy_coefficients gives %s for %s' % (c['copy'], c['row']))
                want = ['%d%d%d' % (a != 0, a > 0, a < 0) for a in c['row'][:-1]]
                got = c['flags']
                if not c['eq']:
                    self.fact(op, got == want, 'involves/lower/upper give %s for %s' % (got, c['row']))
                else:
                    self.fact(op, [g[0] for g in got] == [g[0] for g in want], 'cloog_constraint_involves gives %s for %s' % (got, c['row']))
            self.fact(op, ok, 'constraint of the wrong length')
            if ok:
                s = sets.Set(n, np)
                s.pieces.append(q)
                self.equal(op, s, d, x, p, 'the constraints of the domain describe another set at')
        for op in ('print', 'print0'):
            key = 't/%s:%d' % (op, i)
            if key not in r:
                continue
            try:
                s = read_relation(r[key], n, np, op == 'print0', inn)
            except Exception as e:
                self.fact(op, False, 'the printed constraints cannot be read: %r' % e)
                continue
            if s is not None:
                self.printed(op, s, d)

    def printed(self, op, s, d):
        """s: list of (ndiv, eqs, ins) with free existential columns."""
        x, p = self.x, self.p
        n = len(x)

        def f(q, ex):
            nd, eqs, ins = q
            v = list(x) + ex + list(p)
            lin = lambda row: row[-1] + sum(c * a for c, a in zip(row, v) if c)
            return z3.And([lin(a) == 0 for a in eqs] + [lin(a) >= 0 for a in ins] + [z3.BoolVal(True)])
        # every printed point is in d
        for q in s:
            ex = [z3.Int('e%d' % j) for j in range(q[0])]
            self.never(op, [f(q, ex), z3.Not(d.z(x, p))], list(x) + list(p),
                       lambda m: not d.c(m[:n], m[n:]), 'the printed constraints contain a point that is not in the domain')
        # every point of d is printed
        fs = [d.z(x, p)]
        for q in s:
            ex = [z3.Int('f%d' % j) for j in range(q[0])]
            fs.append(z3.Not(f(q, ex)) if not ex else z3.ForAll(ex, z3.Not(f(q, ex))))
        self.never(op, fs, list(x) + list(p), lambda m: d.c(m[:n], m[n:]) and not any(
            sets.Solver().sat([f(q, [z3.Int('g%d' % j) for j in range(q[0])])] + [a == b for a, b in zip(list(x) + list(p), m)], []) is not None
            for q in s), 'the printed constraints miss a point of the domain')

    def pair(self, i, j):
        k, r, x, y, p = self.k, self.r, self.x, self.y, self.p
        n, np = k.n, k.np
        a, b = k.doms[i], k.doms[j]
        nm = lambda op: '%s:%d,%d' % (op, i, j)
        if nm('union') not in r:
            return
        A, B = (lambda m: a.c(m[:n], m[n:])), (lambda m: b.c(m[:n], m[n:]))
        za, zb = a.z(x, p), b.z(x, p)
        for op, f, cf in (('union', z3.Or(za, zb), lambda m: A(m) or B(m)),
                          ('inter', z3.And(za, zb), lambda m: A(m) and B(m)),
                          ('diff', z3.And(za, z3.Not(zb)), lambda m: A(m) and not B(m))):
            if nm(op) in r and self.dims(op, r[nm(op)], n, np):
                e = r[nm(op)]
                self.never(op, [z3.Xor(e.z(x, p), f)], x + p, lambda m, e=e, cf=cf: e.c(m[:n], m[n:]) != cf(m),
                           'cloog_domain_%s differs' % {'union': 'union', 'inter': 'intersection', 'diff': 'difference'}[op])
        if nm('simplify') in r and self.dims('simplify', r[nm('simplify')], n, np):
            e = r[nm('simplify')]
            self.never('simplify', [zb, z3.Xor(e.z(x, p), za)], x + p, lambda m: B(m) and A(m) != e.c(m[:n], m[n:]),
                       'cloog_domain_simplify differs inside the context')
        if r.get(nm('lazyeq')):
            self.never('lazyeq', [z3.Xor(za, zb)], x + p, lambda m: A(m) != B(m), 'cloog_domain_lazy_equal holds on different domains')
        if r.get(nm('lazydis')):
            self.never('lazydis', [za, zb], x + p, lambda m: A(m) and B(m), 'cloog_domain_lazy_disjoint holds on domains with a common point')
        for l in range(1, n + 1):
            op = 'follows:%d,%d,%d' % (i, j, l)
            if op in r and r[op] <= 0:
                eqs = [x[t] == y[t] for t in range(l - 1)]
                rel = x[l - 1] > y[l - 1] if r[op] == 0 else x[l - 1] >= y[l - 1]
                self.never(op, [a.z(x, p), b.z(y, p), rel] + eqs, x + y + p,
                           lambda m: a.c(m[:n], m[2 * n:]) and b.c(m[n:2 * n], m[2 * n:]), 'cloog_domain_follows returns %d' % r[op])

    def lstride(self):
        k, r, p = self.k, self.r, self.p
        n, np = k.n, k.np
        for l in range(1, n + 1):
            if 'lstride:%d' % l not in r:
                continue
            s, o, fac = r['lstride:%d' % l]
            self.fact('lstride', s > 1, 'stride %d' % s)
            if s <= 1:
                continue
            if 'c/lstride:%d' % l in r:
                row = r['c/lstride:%d' % l][0][0]['row']
                nd = len(row) - 1 - l - np
                off = lambda xs, ps: fac * (row[-1] + sum(c * v for t, (c, v) in enumerate(zip(row[:l], xs)) if c and t != l - 1)
                                            + sum(c * v for c, v in zip(row[l + nd:-1], ps) if c))
            else:
                off = lambda xs, ps: o
            x = self.x
            for i, d in enumerate(k.doms):
                self.never('lstride', [d.z(x, p), (x[l - 1] - off(x, p)) % s != 0], x + p,
                           lambda m: d.c(m[:n], m[n:]) and (m[l - 1] - off(m[:n], m[n:])) % s != 0, 'cloog_domain_list_stride at level %d returns stride %d' % (l, s))
                op, P = 'addstride:%d,%d' % (i, l), r.get('lproj:%d,%d' % (i, l))
                if op in r and P is not None and self.dims(op, r[op], l, np):
                    e = r[op]
                    self.never(op, [d.z(x, p), z3.Not(e.z(x[:l], p))], x + p, lambda m: d.c(m[:n], m[n:]) and not e.c(m[:l], m[n:]),
                               'cloog_domain_add_stride_constraint loses a point')
                    self.never(op, [e.z(x[:l], p), z3.Not(P.z(x[:l], p))], x[:l] + p, lambda m: e.c(m[:l], m[l:]) and not P.c(m[:l], m[l:]),
                               'cloog_domain_add_stride_constraint adds a point')
                op = 'lslb:%d,%d' % (i, l)
                if op in r and P is not None and self.dims(op, r[op], l, np):
                    self.slb(op, P, r[op], l, s, off, P)

    def sort(self):
        k, r, x, y, p = self.k, self.r, self.x, self.y, self.p
        n = k.n
        pc = []
        while 'piece:%d' % len(pc) in r:
            pc.append(r['piece:%d' % len(pc)])
        N = len(pc)
        for l in range(1, n + 1):
            op = 'sort:%d' % l
            if op not in r:
                continue
            perm = [a - 1 for a in r[op]]
            self.fact('sort', sorted(perm) == list(range(N)), 'cloog_domain_sort returns %s, not a permutation' % r[op])
            if sorted(perm) != list(range(N)):
                continue
            before = {}       # (a, b): model where a point of a precedes a point of b
            for a, b in itertools.permutations(range(N), 2):
                eqs = [x[t] == y[t] for t in range(l - 1)]
                m = self.S.sat([pc[a].z(x, p), pc[b].z(y, p), x[l - 1] < y[l - 1]] + eqs, x + y + p)
                before[a, b] = m
            if 'unknown' in before.values():
                self.unk.append(op)
                continue
            order = acyclic(N, {e for e, m in before.items() if m is not None})
            if order is None:
                continue         # no permutation can respect all pairs
            pos = {a: t for t, a in enumerate(perm)}
            for (a, b), m in before.items():
                if m is not None:
                    self.ops['sort'] = self.ops.get('sort', 0) + 1
                    self.fact('sort', pos[a] < pos[b],
                              'cloog_domain_sort at level %d returns %s: domain %d comes after domain %d although %s of the first precedes %s of the second; the order %s is possible'
                              % (l, r[op], a + 1, b + 1, m and m[:n], m and m[n:2 * n], order))

    def scatter(self):
        k, r, x, y, p = self.k, self.r, self.x, self.y, self.p
        n, np = k.n, k.np
        sc = [Scat(rows, ns, n, np) for ns, rows in k.scats]
        cv = lambda b, ns: [z3.Int('%s%d' % (b, j)) for j in range(ns)]
        for i, s in enumerate(sc):
            ns = s.ns
            c, c2 = cv('c', ns), cv('d', ns)
            op = 'sdims:%d' % i
            if op not in r:
                continue
            self.fact('sdims', r[op][0] == ns, 'cloog_scattering_dimension returns %d, not %d' % (r[op][0], ns))
            two = [s.z(c, x, p), s.z(c2, x, p), z3.Or([a != b for a, b in zip(c, c2)] + [z3.BoolVal(False)])]
            if r[op][1]:
                self.never('fullyspec', two, x + c + c2 + p, lambda m: True, 'cloog_scattering_fully_specified holds')
            else:
                self.ever('fullyspec', two, x + c + c2 + p, 'cloog_scattering_fully_specified does not hold')
            for j, d in enumerate(k.doms):
                op = 'scatter:%d,%d' % (j, i)
                if op in r and self.dims(op, r[op], ns + n, np):
                    e = r[op]
                    self.never(op, [z3.Xor(e.z(c + x, p), z3.And(d.z(x, p), s.z(c, x, p)))], c + x + p,
                               lambda m, e=e, d=d, ns=ns, s=s: e.c(m[:ns + n], m[ns + n:]) != (d.c(m[ns:ns + n], m[ns + n:]) and s.c(m[:ns], m[ns:ns + n], m[ns + n:])),
                               'cloog_domain_scatter differs')
            for t in range(ns):
                op = 'scalar:%d,%d' % (i, t)
                if op in r and r[op][0]:
                    v = r[op][1]
                    self.never(op, [s.z(c, x, p), c[t] != v], c + x + p, lambda m, t=t, v=v, s=s, ns=ns: s.c(m[:ns], m[ns:ns + n], m[ns + n:]) and m[t] != v,
                               'cloog_scattering_lazy_isscalar returns %d' % v)
                op = 'erase:%d,%d' % (i, t)
                if op in r and self.dims(op, r[op], n + ns - 1, np):
                    e = r[op]
                    rest = c[:t] + c[t + 1:]
                    self.never(op, [s.z(c, x, p), z3.Not(e.z(x + rest, p))], c + x + p,
                               lambda m, e=e, t=t, s=s, ns=ns: s.c(m[:ns], m[ns:ns + n], m[ns + n:]) and not e.c(m[ns:ns + n] + m[:t] + m[t + 1:ns], m[ns + n:]),
                               'cloog_scattering_erase_dimension loses a date')
            for j, s2 in enumerate(sc):
                op = 'block:%d,%d' % (i, j)
                if not r.get(op):
                    continue
                base = [s.z(c, x, p), s2.z(c2, x, p)]
                self.never(op, base + [z3.Or([a != b for a, b in zip(c[:-1], c2[:-1])] + [z3.And(c2[-1] != c[-1], c2[-1] != c[-1] + 1)])] if ns else [z3.BoolVal(False)],
                           x + c + c2 + p, lambda m: True, 'cloog_scattering_lazy_block holds on different scatterings')
                if ns and self.S.sat(base + [c2[-1] == c[-1] + 1], []) is not None:
                    for a, b in itertools.combinations_with_replacement(range(len(sc)), 2):
                        if sc[a].ns != sc[b].ns:
                            continue
                        dif = [z3.Or([u != w for u, w in zip(x, y)] + [z3.BoolVal(False)])] if a == b else []
                        ca = cv('c', sc[a].ns)
                        self.never(op, [sc[a].z(ca, x, p), sc[b].z(ca, y, p)] + dif, x + y + ca + p, lambda m: True,
                                   'cloog_scattering_lazy_block allows a difference of one although two instances share a date')
        if r.get('lsame'):
            pairs = [(a, b) for a, b in itertools.combinations(range(len(sc)), 2) if sc[a].ns == sc[b].ns]
            ok = False
            for a, b in pairs:
                c = cv('c', sc[a].ns)
                ok = ok or self.S.sat([z3.Xor(sc[a].z(c, x, p), sc[b].z(c, x, p))], []) is None
            self.fact('lsame', ok, 'cloog_scattering_list_lazy_same holds but all scatterings differ')
        for i, s in enumerate(sc):
            key = 't/sprint:%d' % i
            if key in r:
                c = cv('c', s.ns)
                try:
                    q = read_map(r[key], n, s.ns, np)
                except Exception as e:
                    self.fact('sprint', False, 'the printed scattering cannot be read: %r' % e)
                    continue
                if q is None:
                    continue
                fs = []
                for eqs, ins in q:
                    v = c + x + p
                    lin = lambda row: row[-1] + sum(a * b for a, b in zip(row, v) if a)
                    fs.append(z3.And([lin(a) == 0 for a in eqs] + [lin(a) >= 0 for a in ins] + [z3.BoolVal(True)]))
                self.never('sprint', [z3.Xor(z3.Or(fs + [z3.BoolVal(False)]), s.z(c, x, p))], c + x + p, lambda m: True,
                           'the printed scattering differs')

    def constructors(self):
        r = self.r
        for k in range(4):
            x = [z3.Int('u%d' % i) for i in range(k)]
            op = 'univ:%d' % k
            if op in r and self.dims(op, r[op], k, 0):
                self.never('univ', [z3.Not(r[op].z(x, []))], x, lambda m: True, 'cloog_domain_universe misses')
            box = {}
            for a in range(-2, 2):
                box['cube:%d,%d,%d' % (k, a, a + k)] = [(a, a + k)] * k
            box['bounds:%d' % k] = [(3 * i - 4, 5 * i - 1) for i in range(k)]
            for op, b in box.items():
                if op in r and self.dims(op, r[op], k, 0):
                    f = z3.And([z3.And(v >= lo, v <= hi) for v, (lo, hi) in zip(x, b)] + [z3.BoolVal(True)])
                    self.never(op, [z3.Xor(r[op].z(x, []), f)], x, lambda m: True, '%s differs' % op)


class Scat:
    def __init__(self, rows, ns, n, np):
        self.rows, self.ns, self.n, self.np = rows, ns, n, np

    def fs(self, c, x, p):
        v = list(c) + list(x) + list(p)
        o = []
        for r in self.rows:
            s = r[-1] + sum(a * b for a, b in zip(r[1:-1], v) if a)
            o.append(s == 0 if r[0] == 0 else s >= 0)
        return o

    def z(self, c, x, p):
        return z3.And([z3.BoolVal(a) if isinstance(a, bool) else a for a in self.fs(c, x, p)] + [z3.BoolVal(True)])

    def c(self, c, x, p):
        return all(self.fs(c, x, p))


def acyclic(n, edges):
    left, out = set(range(n)), []
    while left:
        free = [b for b in sorted(left) if not any((a, b) in edges for a in left if a != b)]
        if not free:
            return None
        out.append(free[0] + 1)
        left.remove(free[0])
    return out


def _nums(text):
    o = []
    for l in text.split('\n'):
        l = l.split('#')[0].split()
        if l:
            o.append([int(a) for a in l])
    return o


def read_relation(text, n, np, single, inn):
    """Printed domain: pieces (ndiv, eqs, ins) over (dims, divs, params, 1)."""
    ls = _nums(text)
    pieces = []
    i = 0
    if single:
        count = 1
    else:
        count = ls[0][0]
        i = 1
    for _ in range(count):
        h = ls[i]
        rows = ls[i + 1:i + 1 + h[0]]
        i += 1 + h[0]
        if len(rows) != h[0] or any(len(q) != h[1] for q in rows):
            raise ValueError('rows do not match the header %s' % h)
        if len(h) > 2:
            nd = h[4]
            if h[2] != n or h[3] != 0 or h[5] != np or h[1] != 2 + n + nd + np:
                raise ValueError('header %s' % h)
        else:
            nd = h[1] - 2 - n - np
        if nd < 0:
            raise ValueError('%d columns' % h[1])
        pieces.append((nd, [q[1:] for q in rows if q[0] == 0], [q[1:] for q in rows if q[0] != 0]))
    return pieces


def read_map(text, n, ns, np):
    ls = _nums(text)
    i = 1 if len(ls[0]) == 1 else 0
    out = []
    for _ in range(ls[0][0] if i else 1):
        h = ls[i]
        rows = ls[i + 1:i + 1 + h[0]]
        i += 1 + h[0]
        if len(rows) != h[0] or any(len(q) != h[1] for q in rows):
            raise ValueError('rows do not match the header %s' % h)
        if h[2:4] != [ns, n] or h[5] != np:
            raise ValueError('header %s' % h)
        if h[4]:
            return None
        out.append(([q[1:] for q in rows if q[0] == 0], [q[1:] for q in rows if q[0] != 0]))
    return out


# ---------------------------------------------------------------- runner --

def isl_fault(cmd):
    """Is the first memory error an access by isl that is not to a freed object?"""
    rc, so, se = common.run(['valgrind', '-q', '--num-callers=12'] + cmd, timeout=120)
    blocks = re.split(r'==\d+== \n', se)
    for b in blocks:
        if re.search(r'Invalid |Conditional jump|uninitialised', b):
            top = re.search(r'at 0x\w+: .*', b)
            return bool(top and 'libisl' in top.group(0) and "free'd" not in b)
    return False


def run_case(idx):
    c = _G['cases'][idx]
    out = {'idx': idx, 'bad': [], 'obl': 0, 'dis': 0, 'unk': [], 'q': 0, 't': 0.0, 'inc': None, 'ops': {}, 'so': '', 'text': ''}
    if time.time() > _G['deadline']:
        out['inc'] = 'not started (time budget)'
        return out
    wd = _G['dir']
    f = '%s/d%d.txt' % (wd, idx)
    out['text'] = c.text()
    open(f, 'w').write(out['text'])
    rc, so, se = common.run([_G['exe'], f, str(c.what)], timeout=15)
    if rc is None:
        if c.what == 4:
            rc, so, se = common.run([_G['exe'], f, str(c.what)], timeout=40)
        if rc is None:
            last = [l for l in so.split('\n') if l.split(':')[0].split(' ')[0] in ('SET', 'INT', 'INTS')][-1:]
            if c.what == 4:
                out['bad'].append(('sort', 'cloog_domain_sort does not return (after %s)' % last))
                out['so'] = so[-3000:]
            else:
                out['inc'] = 'driver timeout after %s' % last
            return out
    if rc != 0:
        last = [l for l in so.split('\n') if l[:4] in ('SET ', 'INT ', 'INTS', 'CONS', 'TEXT')][-1:]
        if 'Assertion' not in se and isl_fault([_G['exe'], f, str(c.what)]):
            out['inc'] = 'isl itself fails (memory error inside isl on live objects)'
            return out
        out['bad'].append(('crash', 'the library ends with status %d after %s: %s' % (rc, last, se.strip()[-200:])))
        out['so'] = so[-3000:]
        return out
    res = sets.parse(so)
    if 'END' not in res:
        out['inc'] = 'driver output incomplete'
        return out
    try:
        j = Judge(c, res, _G['timeout_ms']).run()
    except common.Inconclusive as e:
        out['inc'] = str(e)
        return out
    out.update(bad=j.bad[:4], obl=j.n_obl, dis=j.n_dis, unk=j.unk[:4], q=j.S.q, t=j.S.t, ops=j.ops)
    if j.bad:
        out['so'] = so[-6000:]
    return out


def run(ck, cases, deadline_s, timeout_ms=3000):
    exe = common.build_driver(common.VERIF + '/drv/domop.c', 'domop')
    d = common.scratch() + '/dom'
    os.makedirs(d, exist_ok=True)
    _G.update(cases=cases, exe=exe, dir=d, deadline=ck.t0 + deadline_s, timeout_ms=timeout_ms)
    agg = {'cases': 0, 'obligations': 0, 'discharged': 0, 'undischarged': 0, 'queries': 0, 'solver_s': 0.0}
    ops = {}
    lim = 60 if ck.tier == 'quick' else 400
    for idx, o in common.pimap(run_case, range(len(cases)), lim, ck.t0 + deadline_s + lim):
        c = cases[idx]
        if o is None:
            ck.note_inconclusive('%s: stopped after %d s' % (c.name, lim))
            continue
        if o['inc']:
            ck.note_inconclusive('%s: %s' % (c.name, o['inc']))
            continue
        agg['cases'] += 1
        agg['obligations'] += o['obl']
        agg['discharged'] += o['dis']
        agg['undischarged'] += len(o['unk'])
        agg['queries'] += o['q']
        agg['solver_s'] += o['t']
        for u in o['unk'][:1]:
            ck.note_inconclusive('%s: %s' % (c.name, u))
        for a, b in o['ops'].items():
            ops[a] = ops.get(a, 0) + b
        for op, msg in o['bad']:
            ck.violation('%s %s' % (c.name, op), msg, {'input of drv/domop.c (mask %d)' % c.what: o['text'], 'output': o['so']})
    agg['solver_s'] = round(agg['solver_s'], 2)
    for a, b in agg.items():
        ck.cov[a] = ck.cov.get(a, 0) + b
    ck.cov.setdefault('queries_per_operation', {}).update(ops)
    return agg


def rnd_cases(seed, n, what, tag, nd=(2, 3), scat=True, maxdim=3):
    rng = random.Random('%s %d' % (tag, seed))
    out = []
    for t in range(n):
        dim = rng.randint(1, maxdim)
        np = rng.choice([0, 1, 1, 2])
        doms = [sets.rnd_spec(rng, dim, np) for _ in range(rng.randint(*nd))]
        if tag == 'lat':           # one lattice for all domains
            m = rng.choice([2, 3, 4, 5, 6])
            r = [m] + [rng.choice([0, 0, 1, 1, 2, m - 1]) for _ in range(dim + np)] + [rng.randint(0, m - 1)]
            l = rng.randrange(dim)
            r[1 + l] = rng.choice([1, 1, m - 1, 2, 3])
            for q in range(l + 1, dim):
                r[1 + q] = 0
            for d in doms:
                d.pieces = [(a, b[:1] + [list(r)]) for a, b in d.pieces]
        scats = []
        if scat:
            ns = rng.randint(1, 3)
            base = sets.rnd_scat(rng, dim, np, ns)
            scats.append((ns, base))
            for _ in range(rng.randint(0, 2)):
                k = rng.random()
                if k < .3:
                    scats.append((ns, [list(q) for q in base]))
                elif k < .7:
                    q = [list(a) for a in base]
                    for a in q:
                        if a[ns]:
                            a[-1] += a[ns] * rng.choice([-1, 1, 1, 2]) * -1
                    scats.append((ns, q))
                else:
                    ns2 = rng.randint(1, 3)
                    scats.append((ns2, sets.rnd_scat(rng, dim, np, ns2)))
        out.append(Case('%s-%d-%d' % (tag, seed, t), np, dim, doms, scats, what))
    return out
