"""Integer sets printed by drv/domop.c as solver formulas, and random domains."""
import z3
from . import common


class Piece:
    """divs: list of (den, row); rows over (dims, divs, params, cst)."""
    def __init__(self, n, nd, np):
        self.n, self.nd, self.np = n, nd, np
        self.divs, self.eqs, self.ins = [], [], []

    def _lin(self, row, x, e, p):
        n, nd = self.n, self.nd
        s = row[-1]
        for c, v in zip(row, list(x) + list(e) + list(p)):
            if c:
                s = s + c * v
        return s

    def f(self, x, p):
        """Membership as a quantifier-free formula."""
        e = []
        for den, row in self.divs:
            if den == 0:
                raise common.Inconclusive('integer division without a definition')
            num = self._lin(row, x, e + [0] * (self.nd - len(e)), p)
            e.append(num // den if isinstance(num, int) else num / z3.IntVal(den))
        fs = [self._lin(r, x, e, p) == 0 for r in self.eqs] + [self._lin(r, x, e, p) >= 0 for r in self.ins]
        return fs

    def z(self, x, p):
        return z3.And([z3.BoolVal(a) if isinstance(a, bool) else a for a in self.f(x, p)] + [z3.BoolVal(True)])

    def c(self, x, p):
        return all(self.f(x, p))


class Set:
    def __init__(self, n, np):
        self.n, self.np, self.pieces = n, np, []

    def z(self, x, p):
        return z3.Or([q.z(x, p) for q in self.pieces] + [z3.BoolVal(False)])

    def c(self, x, p):
        return any(q.c(x, p) for q in self.pieces)


class Spec:
    """Input domain: pieces = list of (rows, mods) where rows are
    (type, dims, params, cst) and mods are (m, dims, params, cst): m divides."""
    def __init__(self, n, np, pieces):
        self.n, self.np, self.pieces = n, np, pieces

    def _f(self, q, x, p):
        rows, mods = q
        v = list(x) + list(p)
        fs = []
        for r in rows:
            s = r[-1] + sum(c * y for c, y in zip(r[1:-1], v) if c)
            fs.append(s == 0 if r[0] == 0 else s >= 0)
        for r in mods:
            s = r[-1] + sum(c * y for c, y in zip(r[1:-1], v) if c)
            fs.append(s % r[0] == 0)
        return fs

    def z(self, x, p):
        return z3.Or([z3.And([z3.BoolVal(a) if isinstance(a, bool) else a for a in self._f(q, x, p)] + [z3.BoolVal(True)])
                      for q in self.pieces] + [z3.BoolVal(False)])

    def c(self, x, p):
        return any(all(self._f(q, x, p)) for q in self.pieces)

    def text(self):
        o = ['%d' % len(self.pieces)]
        for rows, mods in self.pieces:
            if not mods:
                o.append('0\n%d' % len(rows))
                o += [' '.join(map(str, r)) for r in rows]
            else:
                k = len(mods)
                o.append('1 %d\n%d' % (k, len(rows) + k))
                for r in rows:
                    o.append(' '.join(map(str, r[:1 + self.n] + [0] * k + r[1 + self.n:])))
                for i, r in enumerate(mods):
                    ex = [0] * k
                    ex[i] = -r[0]
                    o.append(' '.join(map(str, [0] + r[1:1 + self.n] + ex + r[1 + self.n:])))
        return '\n'.join(o)


def parse(out):
    """name -> Set | list of ints | list of constraint dicts | text."""
    res, order = {}, []
    lines = out.split('\n')
    i = 0
    while i < len(lines):
        w = lines[i].split()
        i += 1
        if not w:
            continue
        if w[0] == 'SET':
            s = Set(int(w[2]), int(w[3]))
            while lines[i] != '.':
                t = lines[i].split()
                if t[0] == 'B':
                    s.pieces.append(Piece(int(t[2]), int(t[3]), int(t[4])))
                else:
                    q, r = s.pieces[-1], [int(a) for a in t[1:]]
                    if t[0] == 'D':
                        q.divs.append((r[0], r[1:]))
                    elif t[0] == 'E':
                        q.eqs.append(r)
                    else:
                        q.ins.append(r)
                i += 1
            i += 1
            res[w[1]] = s
            order.append(w[1])
        elif w[0] == 'NULL':
            res[w[1]] = None
            i += 1
        elif w[0] == 'INT':
            res[w[1]] = int(w[2])
        elif w[0] == 'INTS':
            res[w[1]] = [int(a) for a in w[2:]]
        elif w[0] == 'CONS':
            cs = []
            while lines[i] != '.':
                t = lines[i].split()
                if t[0] == 'C':
                    cs.append({'eq': int(t[1]), 'row': [int(a) for a in t[2:]]})
                elif t[0] == 'K':
                    cs[-1]['copy'] = [int(a) for a in t[2:]]
                elif t[0] == 'L':
                    cs[-1]['flags'] = t[1:]
                i += 1
            i += 1
            res['c/' + w[1]] = (cs, [int(a) for a in w[2:]])
        elif w[0] == 'TEXT':
            t = []
            while lines[i] != '.':
                t.append(lines[i])
                i += 1
            i += 1
            res['t/' + w[1]] = '\n'.join(t)
        elif w[0] == 'END':
            res['END'] = 1
    return res


class Solver:
    def __init__(self, timeout_ms=3000):
        self.t, self.q, self.s, self.timeout = 0.0, 0, None, timeout_ms
        self.unknown = 0

    def sat(self, fs, vars_):
        """None if refuted; values of vars_ if satisfiable; 'unknown'."""
        import time
        t = time.time()
        s = z3.Solver()
        s.set('timeout', self.timeout)
        s.add(*fs)
        r = s.check()
        self.q += 1
        self.t += time.time() - t
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            self.unknown += 1
            return 'unknown'
        m = s.model()
        return [m.eval(v, model_completion=True).as_long() for v in vars_]


# ------------------------------------------------------------- generator --

def rnd_spec(rng, n, np, lattice=True, cmax=3):
    def piece():
        rows = []
        for d in range(n):
            k = rng.random()
            lo, hi = [1] + [0] * (n + np + 1), [1] + [0] * (n + np + 1)
            lo[1 + d], hi[1 + d] = 1, -1
            if np and rng.random() < .5:
                hi[1 + n + rng.randrange(np)] = rng.choice([1, 1, 1, -1, 2])
                lo[1 + n + rng.randrange(np)] = rng.choice([0, 0, 0, -1, 1])
            if d and rng.random() < .5:
                hi[1 + rng.randrange(d)] = rng.choice([1, -1, 2])
            if rng.random() < .2:
                lo[1 + d] = rng.choice([2, 3])
            if rng.random() < .2:
                hi[1 + d] = -rng.choice([2, 3])
            lo[-1] = rng.randint(-3, 4)
            hi[-1] = rng.randint(-1, 9)
            if k < .88:
                rows.append(lo)
            if k > .06:
                rows.append(hi)
        for _ in range(rng.choice([0, 0, 0, 1])):
            rows.append([1] + [rng.randint(-cmax, cmax) for _ in range(n + np)] + [rng.randint(-3, 6)])
        if rng.random() < .2:
            rows.append([0] + [rng.randint(-2, 2) for _ in range(n + np)] + [rng.randint(-2, 2)])
        mods = []
        if lattice and n and rng.random() < .3:
            m = rng.choice([2, 3, 4, 5])
            r = [m] + [rng.randint(0, m - 1) for _ in range(n + np)] + [rng.randint(0, m - 1)]
            if rng.random() < .6:
                r[1 + rng.randrange(n)] = 1
            mods.append(r)
        return rows, mods
    return Spec(n, np, [piece() for _ in range(rng.choice([1, 1, 1, 2, 3]))])


def rnd_scat(rng, n, np, ns):
    """Functional rows c_k = affine(x, p); sometimes a relation."""
    rows = []
    for k in range(ns):
        r = [0] + [0] * (ns + n + np + 1)
        r[1 + k] = -1
        if rng.random() < .35:
            r[-1] = rng.randint(-2, 3)
        else:
            for d in range(n):
                r[1 + ns + d] = rng.choice([0, 0, 1, 1, -1, 2])
            for d in range(np):
                r[1 + ns + n + d] = rng.choice([0, 0, 1, -1])
            r[-1] = rng.randint(-2, 3)
        if rng.random() < .12:
            r[1 + k] = rng.choice([-2, -3])
        rows.append(r)
        if rng.random() < .08:
            q = list(r)
            r[0] = 1
            q[0] = 1
            q = [1] + [-a for a in q[1:]]
            q[-1] += 1
            rows.append(q)
    rng.shuffle(rows)
    return rows
