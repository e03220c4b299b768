"""Independent reader/writer of CLooG input problems (the oracle's side).

A relation is a list of conjunctions; a conjunction is (nloc, rows); a row is
(is_eq, coeffs) with coeffs over [dims..., locals..., params..., 1].
is_eq True:  sum == 0, False: sum >= 0."""
import re


class Problem:
    def __init__(self):
        self.language = 'c'
        self.context = []      # relation with dims = [] (params only)
        self.npar = 0
        self.params = []
        self.domains = []      # list of (ndim, relation)
        self.iters = []
        self.scats = None      # list of (nscat, relation over [scat..., iters...])
        self.nscat = 0
        self.scatnames = []
        self.text = None
        self.name = ''


class FormatError(Exception):
    pass


def _lines(text):
    for l in text.split('\n'):
        s = l.strip()
        if not s or s.startswith('#'):
            continue
        yield s


class _Reader:
    def __init__(self, text):
        self.ls = list(_lines(text))
        self.i = 0

    def next(self):
        if self.i >= len(self.ls):
            raise FormatError('eof')
        l = self.ls[self.i]
        self.i += 1
        return l

    def ints(self):
        l = self.next().split('#')[0]
        out = []
        for t in l.split():
            if re.fullmatch(r'[-+]?\d+', t):
                out.append(int(t))
            else:
                break
        return out

    def matrix(self, hdr):
        rows = []
        for _ in range(hdr[0]):
            r = self.ints()
            if len(r) < hdr[1]:
                raise FormatError('short row')
            rows.append(r[:hdr[1]])
        return rows

    def relation(self, npar, ndim=None):
        """Returns (list of (ext header or None, rows))."""
        if '{' in self.ls[self.i]:
            raise FormatError('isl notation')
        h = self.ints()
        n = 1
        if len(h) == 1:
            n = h[0]
            hs = None
        else:
            hs = h
        out = []
        for _ in range(n):
            h = hs if hs is not None else self.ints()
            hs = None
            if len(h) not in (2, 6):
                raise FormatError('header %s' % h)
            out.append((h, self.matrix(h)))
        return out


def _conv(mats, npar):
    """To conjunctions over dims(out+in), locals, params, 1."""
    rel, nd, nout = [], None, None
    for h, rows in mats:
        if len(h) == 6:
            no, ni, nl, np_ = h[2:]
            d = no + ni
            if np_ != npar:
                if np_ == 0 and ni == 0:
                    d = no - npar
                    no = d
                else:
                    raise FormatError('params')
        else:
            d = h[1] - 2 - npar
            nl = 0
            no = None
        nd, nout = d, no
        rel.append((nl, [(r[0] == 0, list(r[1:])) for r in rows]))
    return nd, nout, rel


def parse(text, name=''):
    p = Problem()
    p.text, p.name = text, name
    r = _Reader(text)
    p.language = r.next()[0]
    mats = r.relation(None)
    h = mats[0][0]
    if len(h) == 6:
        p.npar = h[2] + h[3] + h[5]
        p.context = []
        for hh, rows in mats:
            no, ni, nl, np_ = hh[2:]
            rr = []
            for row in rows:
                v = row[1:]
                sd, lo, pa, c = v[:no + ni], v[no + ni:no + ni + nl], v[no + ni + nl:-1], v[-1]
                rr.append((row[0] == 0, lo + pa + sd + [c]))
            p.context.append((nl, rr))
    else:
        p.npar = h[1] - 2
        p.context = [(0, [(row[0] == 0, row[1:]) for row in rows]) for hh, rows in mats]

    def names(n, default):
        opt = r.ints()
        while not opt:
            opt = r.ints()
        if n == 0:
            return []
        if opt[0]:
            l = r.next().split()
            return l[:n]
        return default
    p.params = names(p.npar, [chr(ord('M') + i) for i in range(p.npar)])
    nst = r.ints()[0]
    for _ in range(nst):
        nd, no, rel = _conv(r.relation(p.npar), p.npar)
        p.domains.append((nd, rel))
        r.next()
    nit = max([d for d, _ in p.domains] + [0])
    p.iters = names(nit, [chr(ord('i') + i) for i in range(nit)])
    try:
        ns = r.ints()
    except FormatError:
        ns = [0]
    if ns and ns[0] > 0:
        p.scats = []
        for k in range(ns[0]):
            nd, no, rel = _conv(r.relation(p.npar), p.npar)
            s = no if no is not None else nd - p.domains[k][0]
            if no is not None:
                s = nd - p.domains[k][0]
            p.scats.append((s, rel))
            p.nscat = max(p.nscat, s)
        p.scatnames = names(p.nscat, ['c%d' % (i + 1) for i in range(p.nscat)])
    return p


def dump(p):
    """Write a Problem as .cloog text (extended format when locals exist)."""
    o = [p.language, '']
    given = getattr(p, 'given', (1, 1, 1))      # naming options: parameters, iterators, scattering

    def names(k, ns):
        o.append('%d' % given[k])
        if given[k] and (ns or k == 2):
            o.append(' '.join(ns))

    def mat(rel, nout, nin, npar, union=True):
        if union:
            o.append('%d' % len(rel))
        ext = any(nl for nl, _ in rel)
        for nl, rows in rel:
            nc = 2 + nout + nin + nl + npar
            if ext:
                o.append('%d %d %d %d %d %d' % (len(rows), nc, nout, nin, nl, npar))
            else:
                o.append('%d %d' % (len(rows), nc))
            for eq, v in rows:
                assert len(v) == nc - 1, (len(v), nc)
                o.append(' '.join(str(x) for x in [0 if eq else 1] + list(v)))
    ctx = p.context or [(0, [])]
    if len(ctx) == 1 and ctx[0][0] == 0:
        rows = ctx[0][1]
        o.append('%d %d' % (len(rows), p.npar + 2))
        for eq, v in rows:
            o.append(' '.join(str(x) for x in [0 if eq else 1] + list(v)))
    else:
        o.append('%d' % len(ctx))
        for nl, rows in ctx:
            o.append('%d %d %d %d %d %d' % (len(rows), 2 + nl + p.npar, 0, 0, nl, p.npar))
            for eq, v in rows:
                o.append(' '.join(str(x) for x in [0 if eq else 1] + list(v)))
    names(0, p.params)
    o.append('%d' % len(p.domains))
    for nd, rel in p.domains:
        mat(rel, nd, 0, p.npar)
        o.append('0 0 0')
    names(1, p.iters)
    if p.scats is None:
        o.append('0')
    else:
        o.append('%d' % len(p.scats))
        for (ns, rel), (nd, _) in zip(p.scats, p.domains):
            if len(rel) == 1 and not rel[0][0]:
                rows = rel[0][1]
                nc = 2 + ns + nd + p.npar
                o.append('%d %d' % (len(rows), nc))
                for eq, v in rows:
                    o.append(' '.join(str(x) for x in [0 if eq else 1] + list(v)))
            else:
                if len(rel) > 1:
                    o.append('%d' % len(rel))
                for nl, rows in rel:
                    nc = 2 + ns + nd + nl + p.npar
                    o.append('%d %d %d %d %d %d' % (len(rows), nc, ns, nd, nl, p.npar))
                    for eq, v in rows:
                        o.append(' '.join(str(x) for x in [0 if eq else 1] + list(v)))
        names(2, p.scatnames)
    return '\n'.join(o) + '\n'
