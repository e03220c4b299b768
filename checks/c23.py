"""Inputs built through the library interface (matrices, isl sets and maps, union maps), several in one state; the printed code is validated."""
import copy, random, re
from vlib import suites, tvrun, common, gen
from checks.c13 import isl_text
LEVEL = 'translation_validation'
NAMES = ['A', 'foo', 'B_2', 'stmt', 'S_x', 'Zed', 'q9', 'r']


def flat(rel):
    return all(nl == 0 for nl, _ in rel)


def mat(rows, nc):
    return ['%d %d' % (len(rows), nc)] + [' '.join(map(str, [0 if eq else 1] + list(v))) for eq, v in rows]


def usable(p):
    return len(p.domains) <= len(NAMES)


def union_text(p, names, rng, iters=None):
    """The problem as one isl union map (or one set)."""
    parts = []
    for k, (nd, rel) in enumerate(p.domains):
        D = iters or ['d%d' % j for j in range(nd)]
        srels = p.scats[k][1] if p.scats is not None else [(0, [])]
        ns = p.scats[k][0] if p.scats is not None else 0
        T = ['t%d' % j for j in range(ns)]
        for nl, rows in rel:
            for sl, srows in srels:
                E = ['e%d' % j for j in range(nl)]
                G = ['g%d' % j for j in range(sl)]
                cs = []
                from checks.c13 import isl_expr
                for eq, v in rows:
                    cs.append('%s %s 0' % (isl_expr(v, D + E + p.params), '=' if eq else '>='))
                for eq, v in srows:
                    cs.append('%s %s 0' % (isl_expr(v, T + D + G + p.params), '=' if eq else '>='))
                body = ' and '.join(cs) or '0 = 0'
                if E + G:
                    body = 'exists (%s : %s)' % (', '.join(E + G), body)
                head = '%s[%s]' % (names[k], ', '.join(D))
                if p.scats is not None:
                    head += ' -> [%s]' % ', '.join(T)
                parts.append('%s : %s' % (head, body))
    return '[%s] -> { %s }' % (', '.join(p.params), '; '.join(parts))


def describe(p, rng):
    """Text for drv/api.c building p, and the statement names the code will use."""
    ns0 = [s[0] for s in p.scats] if p.scats is not None else []
    kinds = ['i', 'i']
    if all(flat(r) for _, r in p.domains) and flat(p.context or [(0, [])]) and (p.scats is None or all(len(r) == 1 and flat(r) for _, r in p.scats)):
        kinds += ['m', 'm', 'm']
    if p.scats is not None and all(r for _, r in p.domains):
        kinds += ['u', 'u']
    if p.scats is None and len(p.domains) == 1:
        kinds += ['s', 's', 's']
    kind = rng.choice(kinds)
    names = rng.sample(NAMES, len(p.domains))
    if kind in 'mi' and rng.random() < .4:
        names = None
    own = rng.choice((0, 0, 1)) if kind in 'mi' else 0
    o = ['%s %s %s %d %d' % (p.language, kind, rng.choice('cctp'), own, p.npar)]
    ctx = p.context or [(0, [])]

    def dom(rel, nd):
        if kind == 'm':
            o.append('%d' % len(rel))
            for nl, rows in rel:
                o.extend(mat(rows, 2 + nd + p.npar))
        elif nd == 0 and rel is ctx:
            o.append(isl_text(rel, 0, p.params, rng))
        else:
            o.append(isl_text(rel, nd, p.params, rng))
    dom(ctx, 0)
    if kind in 'us':
        if kind == 's':
            p.iters = rng.choice((['d%d' % k for k in range(9)], ['i', 'i2', 'zz', 'j', 'w'], ['x', 'y', 'i1', 'i0', 'v']))[:p.domains[0][0]]
            p.iters = [n if n not in p.params else n + 'q' for n in p.iters]
        else:
            p.iters = list('ijklmn'[:max([nd for nd, _ in p.domains] + [0])])
            p.scatnames = ['c%d' % (k + 1) for k in range(max(ns0 + [0]))]
        o.append(union_text(p, names, rng, p.iters if kind == 's' else None))
        o.append('0')
        return o, names, kind, own
    hasp = rng.choice((0, 1)) if p.params == ['MNOPQ'[k] for k in range(p.npar)] else 1
    o.append('%d %s' % (hasp, ' '.join(p.params) if hasp else ''))
    o.append('%d' % len(p.domains))
    for k, (nd, rel) in enumerate(p.domains):
        ns = p.scats[k][0] if p.scats is not None else -1
        o.append('%s %d' % (names[k] if names else '-', ns))
        dom(rel, nd)
        if ns >= 0:
            if kind == 'm':
                o.extend(mat(p.scats[k][1][0][1], 2 + ns + nd + p.npar))
            else:
                o.append(isl_text(p.scats[k][1], ns + nd, p.params, rng, nout=ns))
    nit = max([nd for nd, _ in p.domains] + [0])
    if rng.random() < .5:
        p.iters = ['it%d' % k for k in range(nit)]
        o.append('%d %s' % (nit, ' '.join(p.iters)))
    else:
        p.iters = list('ijklmn'[:nit])
        o.append('0')
    nsc = max(ns0 + [0])
    if rng.random() < .5:
        p.scatnames = ['tm%d' % k for k in range(nsc)]
        o.append('%d %s' % (nsc, ' '.join(p.scatnames)))
    else:
        p.scatnames = ['c%d' % (k + 1) for k in range(nsc)]
        o.append('0')
    for k, (nd, _) in enumerate(p.domains):
        o.append('1 %d' % (nsc + rng.randint(0, nd)))
    return o, names, kind, own


class Names:
    """The loops of the printed code use the names the input was given."""

    def __init__(self, names):
        self.names = set(names)

    def __call__(self, code):
        for m in re.finditer(r'for \((\w+)=|^\s*DO (\w+)=', code, re.M):
            n = m.group(1) or m.group(2)
            if n not in self.names:
                raise Exception('a loop is called %s, the input names %s' % (n, sorted(self.names)))
        return code


def build_cases(seed, n, tag, K, opts_list, big=False):
    rng = random.Random('%s %d' % (tag, seed))
    ps = [(nm, p) for nm, p in gen.rnd(seed, n, tag, big) if usable(p)]
    out = []
    for i, (nm, p) in enumerate(ps):
        p = copy.deepcopy(p)
        if rng.random() < .3:
            p.params = ['MNOPQ'[k] for k in range(p.npar)]
        if rng.random() < .2:
            p.language = 'f'
        others = [copy.deepcopy(ps[rng.randrange(len(ps))][1]) for _ in range(rng.choice((0, 0, 1, 2)))]
        at = rng.randint(0, len(others))
        blocks, names, kind = [], None, None
        for k, q in enumerate(others[:at] + [p] + others[at:]):
            o, nms, kd, ow = describe(q, rng)
            blocks.append(o)
            if k == at:
                names, kind, own = nms, kd, ow
        text = '%d\n' % len(blocks) + '\n'.join('\n'.join(b) for b in blocks) + '\n'
        opts = rng.choice(opts_list)
        out.append(tvrun.Case('%s-%s' % (nm, kind), p, text=text, opts=['@build:%d' % at] + list(opts), kinds=suites.kinds_for(opts, K), stmt_names=names,
                               prepare=Names(p.iters + p.scatnames), order='scat' if opts or own else 'full'))
    return out


def run(ck, tier):
    th = tier == 'thorough'
    ck.assumptions += suites.TV_ASSUME + ['isl reads the relations it is given in its own notation']
    exe = common.build_driver(common.VERIF + '/drv/api.c', 'api')
    K = suites.COVER + ('order',)
    OPTS = [[], [], [], ['-strides', '1'], ['-otl', '0'], ['-esp', '0'], ['-l', '2'], ['-f', '-1'], ['-noblocks'], ['-noscalars'], ['-first-unroll', '1']]
    cases = build_cases(ck.seed, 3500 if th else 450, 'api', K, OPTS) + build_cases(ck.seed, 900 if th else 90, 'apibig', K, OPTS, big=True)
    tvrun.run_cases(ck, cases, 3000 if th else 150, max_pairs=2000 if th else 200, exe=exe)
    ck.cov['bounds'] = 'depth<=3, <=4 statements, up to 3 inputs in one state, coefficients |c|<=7; parameters unbounded'
