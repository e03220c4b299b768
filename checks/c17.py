"""Expressions: equality, order, copies (CBMC on source/clast.c)."""
from vlib import cb
LEVEL = 'other'
UNRES = ['-Wl,--unresolved-symbols=ignore-all']
L = ['n', 'c', 'tn']
D2 = L + [k + x for k in 'tb1' for x in L] + ['2' + x + y for x in L for y in L]
D3 = ['n', 'tn', 'b1tn', 'b2tnc', '2btnc', 't2tnc', '1btn', '12tnc', 'tbtn', '2tn2tnc', 'b2tntn', '2b2tnc1tn', '2bcbn', '1b2tnc', '3tntnc']
TR = ['n', 'c', 'tn', 'bn', 'b2tnc', '1tn', '2tnc', '2tntn', '1c', '3tntnc']
FAST = ['--object-bits', '10', '--no-standard-checks']


def run(ck, tier):
    th = tier == 'thorough'
    hs, seen = [], set()

    def add(name, op, tup, funcs, cr, inc=False, optional=False, t=100, fl=FAST):
        if (name, tup) in seen:
            return
        seen.add((name, tup))
        d = ['-DOP=%d' % op, '-DCR=%d' % cr, '-DSTUB_GMP', '-DVK=4'] + ['-DS%s="%s"' % (k, s) for k, s in zip('ABC', tup)]
        hs.append(cb.H('c17_%s_%s' % (name, '_'.join(tup)), 'c17.c', [] if inc else ['clast.c'], d, unwind=6, nd=64, functions=funcs, timeout=600 if th else t,
                       optional=optional, native_extra=UNRES, flags=fl,
                       bounds='tree shapes %s, coefficients in [-%d,%d], 3 names, all kinds of divisions and reductions' % (' '.join(tup), cr, cr)))
    E = ['clast_expr_equal', 'clast_expr_cmp', 'clast_term_cmp', 'clast_binary_cmp', 'clast_reduction_cmp', 'clast_name_cmp', 'new_clast_*', 'free_clast_*']
    for S in (D2, D3):
        for i, a in enumerate(S):
            for j, b in enumerate(S):
                # all pairs with the same root; of the others a sample (the quick check)
                if th or (j >= i and (a[0] == b[0] or a[0] in '12' and b[0] in '12' or (i + j) % 5 == 0)):
                    add('equal', 0, (a, b), E, 100)
                # internal functions: skipped when they no longer exist under these names
                    if S is D2:
                        add('order', 1, (a, b), ['clast_expr_cmp'], 100, inc=True, optional=True)
    for i, a in enumerate(TR):
        for j, b in enumerate(TR):
            for k, c in enumerate(TR):
                if th or len({x[0] for x in (a, b, c)}) == 1 or (i + 2 * j + 3 * k) % 17 == 0:
                    add('transitive', 2, (a, b, c), ['clast_expr_cmp'], 30, inc=True, optional=True)
    for a in D3 if th else D3[::2]:
        add('copy', 3, (a, a), ['clast_expr_copy', 'new_clast_*', 'free_clast_*'], 100, inc=True, optional=True, fl=FAST[:2])
    ck.assumptions += ['gmp behaves as documented (stub)', 'malloc does not fail',
                       'order: transitivity is decided for names, terms, divisions and sums (the expressions the generator sorts)']
    cb.check(ck, hs, jobs=8)
    ck.cov['explanation'] = 'all contents of the listed pairs (triples) of tree shapes are decided by SAT on the real comparison functions'
