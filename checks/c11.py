"""Integer vectors and scalar operations (CBMC)."""
from vlib import cb
LEVEL = 'other'
F = {0: 'cloog_seq_first_non_zero, cloog_seq_cpy, cloog_seq_neg, cloog_vec_alloc, cloog_vec_free', 1: 'cloog_seq_combine', 2: 'cloog_seq_gcd, cloog_seq_normalize',
     3: 'cloog_seq_is_neg', 4: 'scalar operations of cloog/int.h'}
CAD = ['--sat-solver', 'cadical']


def run(ck, tier):
    th = tier == 'thorough'
    hs = []

    def add(op, kind, n, r, k=4, alias=0, t=150, solver=None):
        hs.append(cb.H('c11_%d_%s%s' % (op, kind, '_alias%d' % alias if op == 1 else ''), 'c11.c', ['int.c'],
                       ['-DOP=%d' % op, '-DLEN=%d' % n, '-DR=%d' % r, '-DVK=%d' % k, '-DVQ=%d' % (k + 5), '-DALIAS=%d' % alias] + (['-DSTUB_GMP'] if kind == 'GMP' else []),
                       unwind=9, kind='CLOOG_INT_' + kind, functions=[F[op]], solver=solver, timeout=1500 if th else t,
                       bounds='vectors of 0..%d entries, entries and operands in [-%d,%d], divisors in [1,%d]' % (n, r, r, r)))
    for kind in ('GMP', 'INT', 'LONG', 'LONG_LONG'):
        big = 100000 if kind != 'GMP' or True else 0
        if kind in ('GMP', 'INT') or th:
            add(0, kind, 6 if th else 4, 30000)
            add(3, kind, 6 if th else 4, 30000)
            for a in (0, 1, 2):
                if kind == 'GMP':
                    add(1, kind, 3, 12, alias=a, solver=CAD)
                else:
                    add(1, kind, 2, 5, alias=a, solver=CAD)
            if kind == 'GMP':
                add(2, kind, 4 if th else 3, 12)
            else:
                add(2, kind, 2, 5)
        add(4, kind, 2, 30 if th else 12, k=5 if th else 4)
    ck.assumptions += ['integer kind GMP: gmp behaves as documented (modelled by /verif/cb/stub/gmp.h)', 'malloc does not fail',
                       'machine integer kinds: results are representable (operands within the stated bounds)']
    cb.check(ck, hs, jobs=8)
    ck.cov['explanation'] = 'every listed function encoded from source/int.c and include/cloog/int.h.in; all contents within the bounds decided by SAT'
