"""-stop: the code scans the projections on the outer dimensions."""
import copy, math, random
from vlib import suites, tvrun, gen
LEVEL = 'translation_validation'


def project(p, s):
    """Oracle: every domain projected on its first s dimensions (the dropped
    dimensions become existentially quantified)."""
    q = copy.copy(p)
    q.domains = []
    for d, rel in p.domains:
        k = min(d, s)
        q.domains.append((k, [(nl + d - k, rows) for nl, rows in rel]))
    q.iters = p.iters[:max([d for d, _ in q.domains] + [0])]
    return q


def rational(p, s):
    """Oracle of the other direction: the rational shadow of the domain on its
    first s dimensions (Fourier-Motzkin); nothing outside it may be scanned."""
    q = project(p, s)
    q.domains = [(d, [(0, fm(rows, d, nl)) for nl, rows in rel]) for d, rel in q.domains]
    return q


def fm(rows, d, nl):
    rows = [(eq, list(co)) for eq, co in rows]
    for v in range(d + nl - 1, d - 1, -1):
        eqs = [r for r in rows if r[0] and r[1][v]]
        out = []
        if eqs:
            e = eqs[0][1]
            for eq, co in rows:
                if co is e:
                    continue
                if co[v]:
                    k = 1 if e[v] > 0 else -1
                    co = [k * e[v] * a - k * co[v] * b for a, b in zip(co, e)]
                out.append((eq, co))
        else:
            lo = [co for eq, co in rows if co[v] > 0]
            hi = [co for eq, co in rows if co[v] < 0]
            out = [r for r in rows if not r[1][v]]
            for a in lo:
                for b in hi:
                    out.append((False, [-b[v] * x + a[v] * y for x, y in zip(a, b)]))
        seen, rows = set(), []
        for eq, co in out:
            g = 0
            for x in co:
                g = math.gcd(g, x)
            co = [x // g for x in co] if g else co
            k = (eq, tuple(co[:v] + co[v + 1:]))
            if k not in seen:
                seen.add(k)
                rows.append((eq, co[:v] + co[v + 1:]))
    return rows


def single(rng):
    while True:
        p = gen.rnd_problem(rng, True)
        if len(p.domains) == 1 and len(p.domains[0][1]) == 1 and not p.domains[0][1][0][0]:
            return p


def flatten(p):
    """The same problem with the scattering dimensions as outer iterators."""
    q = copy.copy(p)
    q.domains = []
    for (d, rel), (ns, sr) in zip(p.domains, p.scats):
        if len(rel) != 1 or len(sr) != 1:
            return None
        (nl, rows), (sl, srows) = rel[0], sr[0]
        out = []
        for eq, co in rows:
            out.append((eq, [0] * ns + co[:d + nl] + [0] * sl + co[d + nl:]))
        for eq, co in srows:
            out.append((eq, co[:ns + d] + [0] * nl + co[ns + d:]))
        q.domains.append((ns + d, [(nl + sl, out)]))
    q.scats, q.nscat, q.scatnames = None, 0, []
    n = max(d for d, _ in q.domains)
    q.iters = ['zt%d' % i for i in range(n)]
    return q


def run(ck, tier):
    th = tier == 'thorough'
    ck.assumptions += suites.TV_ASSUME
    K = suites.COVER + ('order',)
    src = [('one_%d' % k, single(random.Random('one/%d/%d' % (ck.seed, k))), None) for k in range(800 if th else 150)]
    src += [(n, p, None) for n, p in gen.all_fixed('bounds', 'eq', 'stride', 'union', 'sep', 'scat', 'unroll')]
    src += [(n, p, None) for n, p in gen.rnd(ck.seed, 1500 if th else 220, 'stop', big=True)]
    src += [(n, p, t) for n, p, t in tvrun.repo_problems(th)]
    cases = []
    for k, (n, p, t) in enumerate(src):
        if n.startswith('kf_') or p.language == 'f':
            continue
        if p.scats is not None:
            p = flatten(p)
            t = None
            if p is None:
                continue
        top = max([d for d, _ in p.domains] + [0])
        if top > 8:
            continue
        for s in range(0, top + 1):
            if not th and top > 3 and s % 2 == k % 2:
                continue
            o = ([], [], ['-strides', '1'], ['-otl', '0'])[(k + s) % 4]
            one = len(p.domains) == 1 and len(p.domains[0][1]) == 1 and not p.domains[0][1][0][0]
            for kinds, orc in ((('complete', 'unique', 'order') if one else ('complete',), project(p, s)),
                               (('sound',), rational(p, s))):
                if 'sound' in kinds and (s == 0 or not one):
                    continue        # statements that share a loop share its bounds
                cases.append(tvrun.Case(n, p, text=t, opts=['-stop', str(s)] + o, kinds=kinds, oracle=orc,
                                        order='scat' if o else 'full', budget=12, timeout_ms=3000))
    tvrun.run_cases(ck, cases, 2500 if th else 110, max_pairs=2000 if th else 120)
    ck.cov['bounds'] = 'nests up to 8 dimensions, every stop level 0..depth; parameters and points unbounded'
