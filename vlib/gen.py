"""Problem families for translation validation.

Everything here is deterministic in the seed.  Constants that matter are
parameters of the problems whenever CLooG accepts them there, so that the
solver, not the generator, ranges over their values."""
import re, random
from .cloogfile import Problem

IT = ['i', 'j', 'k', 'l']


def lin(s, names):
    """Linear expression -> coefficient dict over names + ''."""
    out = {}
    s = s.replace(' ', '')
    for m in re.finditer(r'([+-]?)(\d*)\*?([A-Za-z_]\w*)?', s):
        if m.group(0) == '':
            continue
        sg = -1 if m.group(1) == '-' else 1
        co = int(m.group(2)) if m.group(2) else 1
        n = m.group(3) or ''
        if not m.group(2) and not n:
            raise ValueError(s)
        if n and n not in names:
            raise ValueError('%s: unknown %s' % (s, n))
        out[n] = out.get(n, 0) + sg * co
    return out


def row(s, names):
    m = re.match(r'^(.*?)(<=|>=|=|<|>)(.*)$', s)
    a, op, b = lin(m.group(1), names), m.group(2), lin(m.group(3), names)
    d = {n: a.get(n, 0) - b.get(n, 0) for n in list(names) + ['']}
    if op in ('<', '<='):
        d = {n: -v for n, v in d.items()}
    if op in ('<', '>'):
        d[''] -= 1
    return (op == '=', [d[n] for n in names] + [d['']])


def conj(cs, dims, params):
    """cs: constraint strings separated by ';'; 'E e,f:' prefix for locals."""
    if isinstance(cs, (list, tuple)):
        cs = ';'.join(cs)
    loc = []
    m = re.match(r'^\s*E([^:]*):(.*)$', cs)
    if m:
        loc = [x.strip() for x in m.group(1).split(',')]
        cs = m.group(2)
    names = list(dims) + loc + list(params)
    rows = [row(c, names) for c in cs.split(';') if c.strip()]
    return (len(loc), rows)


def problem(params, stmts, ctx='', scats=None, ns=0, iters=None, lang='c', name='',
            scatnames=None):
    """stmts: list of (depth, [conj strings]); scats: list of conj strings
    over c1..cn and the iterators."""
    p = Problem()
    p.language = lang
    p.params = params.split() if isinstance(params, str) else list(params)
    p.npar = len(p.params)
    p.context = [conj(ctx, [], p.params)] if ctx else []
    nd = max([d for d, _ in stmts] + [0])
    p.iters = (iters or IT)[:nd]
    for d, cs in stmts:
        if isinstance(cs, str):
            cs = [cs]
        p.domains.append((d, [conj(c, p.iters[:d], p.params) for c in cs]))
    if scats:
        p.nscat = ns
        p.scatnames = scatnames or ['c%d' % (i + 1) for i in range(ns)]
        p.scats = []
        for (d, _), s in zip(stmts, scats):
            if isinstance(s, str):
                s = [s]
            p.scats.append((ns, [conj(x, p.scatnames + p.iters[:d], p.params) for x in s]))
    p.name = name
    return p


# ------------------------------------------------------------ fixed families --

def fam_bounds():
    """Loop bounds with every sign/size of coefficient, parametric offsets."""
    out = []
    for a in (1, 2, 3, 5):
        for b in (1, 2, 4):
            for s in ('', '-'):
                out.append(('bnd_%d_%d%s' % (a, b, s), problem('M N', [
                    (1, '%d*i>=%sM;%d*i<=N' % (a, s, b))])))
    for a in (2, 3):
        for c in (-5, -1, 1, 4):
            out.append(('bndc_%d_%d' % (a, c), problem('N', [
                (2, 'i>=0;i<=N;%d*j>=i%+d;%d*j<=N-i%+d' % (a, c, a + 1, c))])))
            out.append(('bndm_%d_%d' % (a, c), problem('M N', [
                (2, 'i>=-3;i<=N;%d*j>=-i%+d;j>=M;%d*j<=2*N+i;j<=5*M+7' % (a, c, a))])))
    for c in (-7, -6, -1, 0, 1, 5, 6, 7):
        out.append(('bndk_%d' % c, problem('', [(1, '3*i>=%d;2*i<=%d' % (c, c + 11))])))
    out.append(('bnd_ctx', problem('M N', [(2, 'i>=M;i<=N;j>=i;2*j<=N+i')], ctx='M>=2;N>=M+3')))
    out.append(('bnd_ctx_eq', problem('M N', [(1, 'i>=M;2*i<=N'), (1, 'i>=0;i<=N')], ctx='N=2*M+1;M>=-4')))
    out.append(('bnd_three', problem('M N P', [(1, 'i>=M;i>=N;3*i>=P;i<=M+10;2*i<=N+P;i<=100')])))
    out.append(('bnd_deep', problem('N', [(3, 'i>=0;i<=N;j>=0;2*j<=i;k>=i-2*j;3*k<=N+j')])))
    out.append(('bnd_neg', problem('N', [(2, 'i<=-1;i>=-N;j<=-i;j>=i;2*j<=-i-3')])))
    return out


def fam_eq():
    out = []
    for a, b in ((1, 1), (1, -1), (1, 2), (2, 1), (3, 1), (2, -1), (3, 2), (2, 3), (4, 6)):
        for c in (0, 1, -1):
            out.append(('eq_%d_%d_%d' % (a, b, c), problem('N', [
                (2, 'i>=0;i<=N;%d*j=%d*i%+d' % (a, b, c))])))
    for a in (1, 2, 3, -2):
        out.append(('eqp_%d' % a, problem('M N', [(1, '%d*i=M+N;i>=-10;i<=10' % a)])))
        out.append(('eqp2_%d' % a, problem('M N', [
            (2, 'i>=0;i<=N;%d*j=i+M;j<=20;j>=-20' % a), (1, 'i>=2;i<=M')])))
    out.append(('eq_chain', problem('N', [(3, 'i>=0;i<=N;j=2*i+1;2*k=j+3;k<=N')])))
    out.append(('eq_chain2', problem('M N', [(3, 'i>=0;i<=N;2*j=i+M;3*k=j+1')])))
    out.append(('eq_guard', problem('M N', [(2, 'i=M;j>=i;j<=N'), (2, 'i=N;j>=0;j<=3')])))
    out.append(('eq_two', problem('M N', [(2, 'i=M;2*j=N'), (2, 'i>=0;i<=3;j=i')])))
    out.append(('eq_par', problem('M N', [(1, 'M=2*N;i>=0;i<=N'), (1, 'i>=0;i<=M')])))
    out.append(('eq_zero', problem('M', [(0, 'M>=3'), (0, 'M<=5'), (0, 'M=4')])))
    return out


def fam_stride():
    out = []
    for m in (2, 3, 4, 7):
        for r in (0, 1, -1, 5):
            out.append(('str_%d_%d' % (m, r), problem('N', [(1, 'E e:i=%d*e%+d;i>=0;i<=N' % (m, r))])))
        out.append(('strp_%d' % m, problem('M N', [(1, 'E e:i=%d*e+M;i>=0;i<=N' % m)])))
        out.append(('strn_%d' % m, problem('M N', [(1, 'E e:i=%d*e-M+1;i>=-5;i<=N' % m)])))
        out.append(('strl_%d' % m, problem('M N', [(1, 'E e:i=%d*e+1;i>=M;i<=N' % m)])))
        out.append(('str2_%d' % m, problem('N', [(2, 'E e:i>=0;i<=N;j=%d*e+i;j>=0;j<=N' % m)])))
        out.append(('str2n_%d' % m, problem('N', [(2, 'E e:i>=-2;i<=N;j+i=%d*e+1;j>=i;j<=N' % m)])))
    out.append(('str_two', problem('M N', [(1, 'E e:i=2*e;i>=0;i<=N'), (1, 'E e:i=3*e+1;i>=M;i<=N')])))
    out.append(('str_same', problem('M N', [(1, 'E e:i=4*e+2;i>=0;i<=N'), (1, 'E e:i=4*e+2;i>=M;i<=N')])))
    out.append(('str_mix', problem('M N', [(1, 'E e:i=4*e+1;i>=0;i<=N'), (1, 'E e:i=6*e+3;i>=0;i<=M')])))
    out.append(('str_off', problem('M N', [(1, 'E e:i=5*e;i>=M;i<=N'), (1, 'E e:i=5*e+2;i>=M;i<=N')])))
    out.append(('str_dbl', problem('N', [(1, 'E e,f:i=2*e;i=3*f+1;i>=0;i<=N')])))
    out.append(('str_nest', problem('N', [(2, 'E e,f:i=2*e;j=3*f;i>=0;i<=N;j>=i;j<=N')])))
    out.append(('str_coef', problem('M N', [(2, 'E e:i>=0;i<=N;2*j=3*e+i;j>=0;j<=M')])))
    out.append(('str_tri', problem('N', [(3, 'E e:i>=0;i<=N;j>=0;j<=i;k=2*e+i+j;k>=0;k<=j')])))
    out.append(('str_union', problem('N', [(1, ['E e:i=2*e;i>=0;i<=N', 'E e:i=2*e+1;i>=3;i<=N-2'])])))
    out.append(('str_eq', problem('M N', [(2, 'E e:i=2*e;j=i+M;i>=0;j<=N')])))
    return out


def fam_mod():
    """Integer-division windows l <= i mod m <= u on non-negative ranges."""
    out = []
    for m, l, u in ((3, 0, 1), (4, 1, 2), (5, 2, 3), (4, 1, 3)):
        out.append(('mod_%d_%d_%d' % (m, l, u), problem('N', [
            (1, 'E e:i>=0;i<=N;%d*e+%d<=i;i<=%d*e+%d' % (m, l, m, u))], ctx='N>=0')))
        out.append(('modj_%d_%d_%d' % (m, l, u), problem('N', [
            (2, 'E e:i>=0;i<=N;j>=0;j<=N;%d*e+%d<=i+j;i+j<=%d*e+%d' % (m, l, m, u))], ctx='N>=0')))
    return out


def fam_union():
    out = [
        ('un_over', problem('M N', [(1, ['i>=0;i<=M', 'i>=3;i<=N'])])),
        ('un_disj', problem('M N', [(1, ['i>=0;i<=M', 'i>=M+2;i<=N'])])),
        ('un_nest', problem('M N', [(2, ['i>=0;i<=M;j>=0;j<=N', 'i>=2;i<=N;j>=i;j<=M'])])),
        ('un_three', problem('N', [(1, ['i=0', 'i>=2;i<=N', 'i=N+3'])])),
        ('un_2st', problem('M N', [(1, ['i>=0;i<=M', 'i>=N;i<=N+4']), (1, 'i>=-2;i<=N')])),
        ('un_eq', problem('N', [(2, ['i>=0;i<=N;j=i', 'i>=0;i<=N;j=2*i+1'])])),
        ('un_rect', problem('M N', [(2, ['i>=0;i<=M;j>=0;j<=M', 'i>=N;i<=M;j>=-3;j<=2']),
                                     (2, 'i>=1;i<=N;j=i')])),
    ]
    return out


def fam_sep():
    """Several statements whose domains overlap in parametric ways."""
    out = [
        ('sep_2', problem('M N P', [(1, 'i>=0;i<=M'), (1, 'i>=N;i<=P')])),
        ('sep_3', problem('M N', [(1, 'i>=0;i<=M'), (1, 'i>=0;i<=N'), (1, 'i>=M;i<=N')])),
        ('sep_pt', problem('M N', [(1, 'i>=0;i<=N'), (1, 'i=M')])),
        ('sep_pts', problem('M N', [(1, 'i=M'), (1, 'i=N'), (1, 'i>=M;i<=N')])),
        ('sep_tri', problem('N', [(2, 'i>=0;i<=N;j>=0;j<=i'), (2, 'i>=0;i<=N;j>=i;j<=N')])),
        ('sep_tri2', problem('M N', [(2, 'i>=0;i<=N;j>=0;j<=N-i'), (2, 'i>=2;i<=M;j>=i;j<=M'), (1, 'i>=1;i<=M')])),
        ('sep_depth', problem('N', [(1, 'i>=0;i<=N'), (2, 'i>=1;i<=N;j>=1;j<=N'), (2, 'i>=0;i<=3;j=i'), (0, 'N>=2')])),
        ('sep_const', problem('', [(1, 'i>=0;i<=10'), (1, 'i>=4;i<=6'), (1, 'i=8')])),
        ('sep_const2', problem('', [(2, 'i>=0;i<=5;j>=0;j<=5'), (2, 'i>=2;i<=8;j>=-i;j<=3'), (2, 'i>=7;i<=9;j>=1;j<=i')])),
        ('sep_neg', problem('M N', [(2, 'i>=-M;i<=0;j>=-N;j<=i'), (2, 'i>=-3;i<=N;j>=i;j<=4')])),
        ('sep_4', problem('N', [(1, 'i>=0;i<=N'), (1, 'i>=1;i<=N-1'), (1, 'i>=2;i<=N-2'), (1, 'i=5')])),
        ('sep_holes', problem('N', [(1, 'i>=0;i<=3'), (1, 'i>=6;i<=9'), (1, 'i>=N;i<=N+2')])),
        ('sep_cpl', problem('M N', [(3, 'i>=1;i<=N;j>=1;j<=i;k>=1;k<=j'), (2, 'i>=2;i<=M;j>=2;j<=N'), (1, 'i>=1;i<=N')])),
        ('sep_skew', problem('N', [(2, 'i>=0;i<=N;j>=i;j<=i+3'), (2, 'i>=0;i<=N;j>=2*i;j<=2*i+1')])),
        ('sep_dup', problem('N', [(2, 'i>=0;i<=N;j>=0;j<=i'), (2, 'i>=0;i<=N;j>=0;j<=i'), (2, 'i>=0;i<=N;j=0')])),
    ]
    return out


def fam_scat():
    out = []
    box = 'i>=0;i<=N;j>=0;j<=M'
    S = [
        ('perm', 'c1=j;c2=i'), ('skew', 'c1=i+j;c2=j'), ('rev', 'c1=-i;c2=j'),
        ('nonuni', 'c1=2*i;c2=j'), ('nonuni2', 'c1=3*i+2*j;c2=i'), ('shift', 'c1=i+N;c2=j-i'),
        ('part', 'c1=i+j;c2=0'), ('neg', 'c1=N-i;c2=M-j'), ('wave', 'c1=2*i+j;c2=i'),
        ('tile', 'c2=i;4*c1<=i;i<=4*c1+3'), ('tilep', 'c2=j;3*c1<=i+j;i+j<=3*c1+2'),
    ]
    for n, s in S:
        out.append(('sc_' + n, problem('M N', [(2, box)], scats=[s], ns=2)))
    for n, s, t in (('seq', 'c1=0;c2=i;c3=j', 'c1=1;c2=i;c3=j'),
                    ('inter', 'c1=i;c2=0;c3=j', 'c1=i;c2=1;c3=j'),
                    ('fuse', 'c1=i;c2=j;c3=0', 'c1=j;c2=i;c3=1'),
                    ('desc', 'c1=i;c2=j;c3=1', 'c1=i;c2=j;c3=0'),
                    ('delay', 'c1=i;c2=j;c3=0', 'c1=i+2;c2=j-1;c3=0'),
                    ('mixc', 'c1=i;c2=2;c3=j', 'c1=j+1;c2=-1;c3=i'),
                    ('param', 'c1=i+N;c2=j;c3=0', 'c1=j+M;c2=i;c3=0'),
                    ('scale', 'c1=2*i;c2=j;c3=0', 'c1=2*j+1;c2=i;c3=0'),
                    ('scale3', 'c1=2*i;c2=j;c3=0', 'c1=3*j;c2=i;c3=1')):
        out.append(('sc2_' + n, problem('M N', [(2, box), (2, 'i>=1;i<=M;j>=i;j<=N')], scats=[s, t], ns=3)))
    out.append(('sc3_seq', problem('N', [(1, 'i>=0;i<=N'), (1, 'i>=0;i<=N'), (2, 'i>=0;i<=N;j>=0;j<=i')],
                                   scats=['c1=0;c2=i;c3=0;c4=0', 'c1=1;c2=i;c3=0;c4=0', 'c1=1;c2=i;c3=1;c4=j'], ns=4)))
    out.append(('sc3_int', problem('M N', [(1, 'i>=0;i<=N'), (2, 'i>=0;i<=N;j>=0;j<=M'), (1, 'i>=0;i<=N')],
                                   scats=['c1=i;c2=0;c3=0', 'c1=i;c2=1;c3=j', 'c1=i;c2=2;c3=0'], ns=3)))
    out.append(('sc3_lu', problem('N', [(2, 'i>=1;i<=N;j>=i+1;j<=N'), (3, 'i>=1;i<=N;j>=i+1;j<=N;k>=i+1;k<=N')],
                                  scats=['c1=i;c2=j;c3=0;c4=0', 'c1=k;c2=j;c3=i;c4=1'], ns=4)))
    out.append(('sc_dep0', problem('N', [(0, 'N>=1'), (1, 'i>=0;i<=N')], scats=['c1=5', 'c1=i'], ns=1)))
    out.append(('sc_dep0b', problem('M N', [(0, 'N>=1'), (0, 'M>=N'), (1, 'i>=0;i<=N')],
                                    scats=['c1=M;c2=0', 'c1=M;c2=1', 'c1=i;c2=0'], ns=2)))
    out.append(('sc_scal3', problem('N', [(1, 'i>=0;i<=N'), (1, 'i>=0;i<=N'), (1, 'i>=0;i<=N')],
                                    scats=['c1=0;c2=1;c3=i', 'c1=0;c2=0;c3=i', 'c1=-2;c2=7;c3=i'], ns=3)))
    out.append(('sc_scalin', problem('N', [(1, 'i>=0;i<=N'), (1, 'i>=0;i<=N'), (1, 'i>=2;i<=N')],
                                     scats=['c1=i;c2=3;c3=0', 'c1=i;c2=1;c3=4', 'c1=i;c2=1;c3=2'], ns=3)))
    return out


def fam_unroll():
    return [
        ('unr_a', problem('N', [(1, 'i>=N;i<=N+3')])),
        ('unr_b', problem('N', [(2, 'i>=N;i<=N+2;j>=i;j<=N+6'), (2, 'i>=N;i<=N+1;j>=0;j<=i')])),
        ('unr_c', problem('', [(2, 'i>=1;i<=4;j>=i;j<=2*i')])),
        ('unr_d', problem('M', [(1, '2*i>=M;2*i<=M+5')])),
        ('unr_e', problem('M N', [(1, 'i>=M;i<=M+2;i<=N'), (1, 'i>=M+1;i<=M+3')])),
    ]


def fam_kf():
    """Inputs on which the recorded known findings show."""
    cross = rnd_problem(random.Random('rnd/1/458'))
    return [('kf_mod', problem('M N', [(1, 'E e:i=N;3*e<=M;M<=3*e+1;i>=0')])),
            ('kf_cross', cross),
            ('kf_cycle', problem('p q', [(1, 'q=0;i=p'), (1, 'q=10;i=2'), (1, 'p=0;i=1'), (1, 'p=10;i=3')], ctx='p>=0;p<=10;q>=0;q<=10')),
            ('kf_nested', rnd_problem(random.Random('api/8/86')))]


# ------------------------------------------------------------ random families

def rnd_problem(rng, big=False):
    npar = rng.choice((0, 1, 1, 2))
    params = ['M', 'N'][:npar] if rng.random() < .7 else ['n', 'P'][:npar]
    nst = rng.choice((1, 1, 2, 2, 3))
    depths = [rng.choice((1, 2, 2)) for _ in range(nst)]
    if big and rng.random() < .4:
        depths[0] = 3

    def off(outer, cmax=2, lo=-4, hi=5):
        t = []
        for n in outer + params:
            if rng.random() < .45:
                c = rng.choice((1, 1, 1, -1, 2, -2, cmax))
                t.append('%+d*%s' % (c, n))
        t.append('%+d' % rng.randint(lo, hi))
        s = ''.join(t)
        return s[1:] if s[0] == '+' else s

    def one_conj(d):
        cs, locs = [], []
        for q in range(d):
            n = IT[q]
            outer = IT[:q]
            kind = rng.random()
            a = rng.choice((1, 1, 1, 1, 2, 3))
            if kind < .12 and q > 0:
                cs.append('%d*%s=%s' % (a, n, off(outer)))
                if a != 1 or rng.random() < .3:
                    cs.append('%s>=%d' % (n, rng.randint(-3, 1)))
                continue
            if params and rng.random() < .75:
                par = rng.choice(params)
                lo = rng.choice(('0', '1', '-2', '-' + par)) if rng.random() < .7 else off(outer)
                hi = par if rng.random() < .6 else off(outer) + '+' + par
            else:
                lo = str(rng.randint(-3, 3))
                hi = str(rng.randint(4, 9)) if rng.random() < .7 else off(outer) + '+8'
            cs.append('%d*%s>=%s' % (a, n, lo))
            cs.append('%d*%s<=%s' % (rng.choice((1, 1, 1, 2, 3)), n, hi))
            if rng.random() < .3:
                cs.append('%d*%s>=%s' % (rng.choice((1, 2)), n, off(outer)))
            if rng.random() < .3:
                cs.append('%d*%s<=%s' % (rng.choice((1, 2)), n, off(outer) + '+6'))
            if rng.random() < .15:
                e = 'e%d' % len(locs)
                locs.append(e)
                cs.append('%s=%d*%s%s' % (n, rng.choice((2, 3, 4)), e,
                                          rng.choice(('', '+1', '-1')) + (('+' + rng.choice(outer + params))
                                          if outer + params and rng.random() < .4 else '')))
        s = ';'.join(cs)
        if locs:
            s = 'E ' + ','.join(locs) + ':' + s
        return s
    stmts = []
    for d in depths:
        cj = [one_conj(d)]
        # isl 0.26's isl_set_coalesce is itself wrong on unions that mix
        # lattices, so unions are made of lattice-free pieces only
        if rng.random() < .15 and not cj[0].startswith('E'):
            c2 = one_conj(d)
            if not c2.startswith('E'):
                cj.append(c2)
        stmts.append((d, cj))
    ctx = ''
    if params and rng.random() < .5:
        ctx = ';'.join('%s>=%d' % (n, rng.randint(-3, 4)) for n in params)
    scats, ns = None, 0
    if rng.random() < .5:
        md = max(depths)
        ns = rng.choice((md, 2 * md + 1, md + 1))
        scats = []
        for k, d in enumerate(depths):
            if ns == 2 * md + 1:
                cs = []
                perm = list(range(d))
                rng.shuffle(perm)
                for q in range(ns):
                    if q % 2 == 0:
                        cs.append('c%d=%d' % (q + 1, rng.randint(0, 2)))
                    elif q // 2 < d:
                        n = IT[perm[q // 2]]
                        cs.append('c%d=%s%s' % (q + 1, rng.choice(('', '', '-', '2*')) + n,
                                                rng.choice(('', '', '+1', '-2', '+' + params[0] if params else ''))))
                    else:
                        cs.append('c%d=0' % (q + 1))
            else:
                cs = []
                for q in range(ns):
                    terms = []
                    for n in IT[:d]:
                        if rng.random() < .6:
                            terms.append('%+d*%s' % (rng.choice((1, 1, -1, 2)), n))
                    terms.append('%+d' % rng.randint(-1, 2))
                    t = ''.join(terms)
                    cs.append('c%d=%s' % (q + 1, t[1:] if t[0] == '+' else t))
            scats.append(';'.join(cs))
    return problem(params, stmts, ctx=ctx, scats=scats, ns=ns)


def rnd(seed, n, tag='rnd', big=False):
    out = []
    for k in range(n):
        rng = random.Random('%s/%d/%d' % (tag, seed, k))
        out.append(('%s_%d_%d' % (tag, seed, k), rnd_problem(rng, big)))
    return out


FAMS = {'bounds': fam_bounds, 'eq': fam_eq, 'stride': fam_stride, 'mod': fam_mod,
        'union': fam_union, 'sep': fam_sep, 'scat': fam_scat, 'unroll': fam_unroll, 'kf': fam_kf}


def all_fixed(*which):
    out = []
    for w in (list(which) + ['kf'] if which else FAMS):
        out += FAMS[w]()
    return out
