"""Every way to write a problem means the same problem (translation validation), and the readers refuse what they cannot read (CBMC)."""
import copy, os, random, re
from vlib import suites, tvrun, gen, cb, common
LEVEL = 'translation_validation'


def isl_expr(v, names):
    t = ''
    for c, n in zip(v, names + ['']):
        if c:
            t += (' %+d*%s' % (c, n)) if n else ' %+d' % c
    return (t or ' 0').replace('+', '+ ').replace('-', '- ').strip().lstrip('+ ') if t else '0'


def isl_text(rel, nd, P, rng, nout=None):
    """A relation in isl notation ([params] -> { [dims] : ... }); nout: dimensions of the range when it is a map."""
    D = ['d%d' % k for k in range(nd)]
    parts = []
    for nl, rows in rel:
        E = ['e%d' % k for k in range(nl)]
        cs = ['%s %s 0' % (isl_expr(v, D + E + P), '=' if eq else '>=') for eq, v in rows] or ['0 = 0']
        body = ' and '.join(cs)
        if E:
            body = 'exists (%s : %s)' % (', '.join(E), body)
        t = '[%s]' % ', '.join(D) if nout is None else '[%s] -> [%s]' % (', '.join(D[nout:]), ', '.join(D[:nout]))
        parts.append('%s : %s' % (t, body))
    return '[%s] -> { %s }' % (', '.join(P), '; '.join(parts))


class Writer:
    """Writes a Problem in a layout chosen at random among those the format allows."""

    def __init__(self, rng):
        self.rng, self.o = rng, []

    def junk(self):
        r = self.rng
        while r.random() < .35:
            self.o.append(r.choice(('', '   ', '# a comment', '#', '  # indented 1 2 3', '\t', '# 1 0 -1 4', '######')))

    def line(self, s, tail=True):
        r = self.rng
        self.junk()
        s = r.choice(('', '', ' ', '\t', '    ')) + r.choice((' ', ' ', '  ', '\t')).join(s.split(' '))
        self.o.append(s + (r.choice(('', '', ' ', '  # note 7', '\t')) if tail else ''))

    def rows(self, rows, shuffle=True):
        r = self.rng
        rows = [(eq, list(v)) for eq, v in rows]
        if shuffle:
            r.shuffle(rows)
            if rows and r.random() < .3:
                rows.append(r.choice(rows))
            rows = [(eq, [k * x for x in v]) for eq, v in rows for k in (r.choice((1, 1, 1, 2, 3) if not eq else (1, 1, -1, 2)),)]
        return rows

    def mats(self, rel, nout, nin, npar, scat=False):
        r = self.rng
        ext = any(nl for nl, _ in rel) or r.random() < .35
        if len(rel) > 1 or r.random() < .5:
            self.line('%d' % len(rel))
        for nl, rows in rel:
            rows = self.rows(rows)
            nc = 2 + nout + nin + nl + npar
            if ext:
                self.line('%d %d %d %d %d %d' % (len(rows), nc, nout, nin, nl, npar))
            else:
                self.line('%d %d' % (len(rows), nc))
            for eq, v in rows:
                self.line(' '.join(str(x) for x in [0 if eq else 1] + v), tail=False)

    def names(self, k, ns, given):
        self.line('%d' % (given if ns or k != 0 else 0))
        if given and ns:
            # all names on one line
            self.junk()
            self.o.append('  '.join(ns) + self.rng.choice(('', ' ', ' # names')))

    def write(self, p, lang):
        r = self.rng
        self.line(r.choice((lang, lang, lang + ' # language', {'c': 'c', 'f': 'fortran'}[lang])))
        isl = r.random() < .5 and not p.npar     # (not documented; the test suite uses it for problems without parameters)
        ctx = p.context or [(0, [])]
        if len(ctx) == 1 and not ctx[0][0] and r.random() < .6:
            rows = self.rows(ctx[0][1])
            self.line('%d %d' % (len(rows), p.npar + 2))
            for eq, v in rows:
                self.line(' '.join(str(x) for x in [0 if eq else 1] + v), tail=False)
        else:
            if len(ctx) > 1 or r.random() < .5:
                self.line('%d' % len(ctx))
            for nl, rows in ctx:
                rows = self.rows(rows)
                self.line('%d %d 0 0 %d %d' % (len(rows), 2 + nl + p.npar, nl, p.npar))
                for eq, v in rows:
                    self.line(' '.join(str(x) for x in [0 if eq else 1] + v), tail=False)
        given = getattr(p, 'given', (1, 1, 1))
        self.names(0, p.params, given[0])
        self.line('%d' % len(p.domains))
        for nd, rel in p.domains:
            if isl and r.random() < .6:
                self.junk()
                self.o.append(isl_text(rel, nd, p.params if given[0] else ['p%d' % k for k in range(p.npar)], r))
            else:
                self.mats(rel, nd, 0, p.npar)
            self.line('0 0 0')
        self.names(1, p.iters, given[1])
        if p.scats is None:
            if r.random() < .7:
                self.line('0')
        else:
            self.line('%d' % len(p.scats))
            for (ns, rel), (nd, _) in zip(p.scats, p.domains):
                if isl and r.random() < .6:
                    self.junk()
                    self.o.append(isl_text(rel, ns + nd, p.params if given[0] else ['p%d' % k for k in range(p.npar)], r, nout=ns))
                else:
                    self.mats(rel, ns, nd, p.npar, scat=True)
            self.names(2, p.scatnames, given[2])
        self.junk()
        t = '\n'.join(self.o)
        return t + ('\n' if r.random() < .8 else '')


def harnesses(th):
    UNRES = ['-Wl,--unresolved-symbols=ignore-all']
    FL = ['--object-bits', '10', '--no-standard-checks']
    hs = []
    F = ['cloog_domain_read_context', 'cloog_domain_union_read', 'cloog_domain_read_scattering']
    for op in (0, 1, 2):
        hs.append(cb.H('c13_dims_%d' % op, 'c13d.c', ['isl/domain.c'], ['-DOP=%d' % op], stub=False, unwind=6, nd=40, timeout=100, native_extra=UNRES, flags=FL,
                       functions=[F[op]], bounds='isl abstracted to dimensions: up to 3 parameters, 3 input and 7 output dimensions, reading may fail'))
    inc = common.scratch() + '/c13inc'
    os.makedirs(inc + '/cloog', exist_ok=True)
    t = open(common.REPO + '/include/cloog/program.h').read()
    open(inc + '/cloog/program.h', 'w').write(re.sub(r'(MAX_STRING\s+)1024', r'\g<1>16', t))      # shorter buffers, same code
    L = [(0, (2,)), (0, (1, 2)), (1, (2, 3)), (2, (1, 5)), (1, (2, 1, 2)), (2, (1, 2, 4)), (1, (0, 1, 0, 2)), (3, (1, 6)), (1, (3,)), (2, (2,))]
    if th:
        L += [(2, (3, 7)), (1, (3, 3, 4)), (3, (2, 8)), (1, (2, 2, 2, 2))]
    for n, ls in L:
        for nl in (0, 1):
            tn = sum(ls) + len(ls)
            hs.append(cb.H('c13_names_%d_%s_%d' % (n, '_'.join(map(str, ls)), nl), 'c13n.c', ['names.c'],
                           ['-I' + inc, '-DTN=%d' % tn, '-DLINES=' + ','.join(map(str, ls)), '-DLASTNL=%d' % nl, '-DNITEMS=%d' % n, '-DSTUB_GMP'], unwind=tn + 2, nd=40,
                           timeout=900 if th else 100, native_extra=UNRES, flags=FL, functions=['cloog_names_read_strings'],
                           bounds='%d names, text of lines of %s characters out of " #01ab-", %s final line end' % (n, ls, 'with' if nl else 'without')))
    return hs


def run(ck, tier):
    th = tier == 'thorough'
    cb.check(ck, harnesses(th), jobs=8)
    ck.assumptions += ['fgets, sscanf and isspace are as the C standard defines them (model in cb/stdio_model.h)', 'isl reports unreadable relations as null objects']
    K = suites.COVER + ('order',)
    src = [(n, p) for n, p in gen.all_fixed('bounds', 'eq', 'stride', 'union', 'sep', 'scat', 'mod')]
    src += gen.rnd(ck.seed, 1500 if th else 250, 'fmt')
    src += [(n, p) for n, p, t in tvrun.repo_problems(th)]
    cases = []
    for k, (n, p) in enumerate(src):
        rng = random.Random('fmt/%d/%d' % (ck.seed, k))
        q = copy.copy(p)
        q.given = tuple(int(rng.random() < .6) for _ in range(3))
        if not q.given[0]:
            q.params = [chr(ord('M') + i) for i in range(p.npar)]
        if not q.given[1]:
            q.iters = [chr(ord('i') + i) for i in range(len(p.iters))]
        if p.scats is not None and not q.given[2]:
            q.scatnames = ['c%d' % (i + 1) for i in range(p.nscat)]
        alln = q.params + q.iters + (q.scatnames if q.scats is not None else [])
        if len(set(alln)) != len(alln):
            q = copy.copy(p)
            q.given = (1, 1, 1)
        lang = 'f' if k % 7 == 3 else 'c'
        q.language = lang
        cases.append(tvrun.Case('fmt_' + n, q, text=Writer(rng).write(q, lang), kinds=K, lang=lang, order='scat', budget=10, timeout_ms=2500))
    tvrun.run_cases(ck, cases, 2500 if th else 90, max_pairs=2000 if th else 150)
    ck.assumptions += suites.TV_ASSUME
    ck.cov['bounds'] = 'layouts: comments, blank lines, indentation, tabs, extra columns headers, unions, existential columns, isl notation, repeated, scaled and reordered rows, generated or given names, missing final newline'
