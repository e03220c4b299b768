"""clast_filter against an independent description of the tree (CBMC on source/clast.c)."""
from vlib import cb
LEVEL = 'other'
UNRES = ['-Wl,--unresolved-symbols=ignore-all']
Q = ['U', 'UU', 'A', 'AU', 'UAU', 'F(U)', 'F(UU)', 'F(U)U', 'UF(U)', 'F(AU)', 'AF(U)', 'F(U)F(U)', 'F(F(U))', 'F(UF(U))', 'F(F(U)U)',
     'G(U)U', 'G(F(U))F(U)', 'F(G(U)U)', 'F(G(U)F(U))', 'B(U)', 'F(B(U)U)', 'B(F(U))F(U)', 'F(F(U)F(U))', 'F(AG(AF(U)))U', 'F(UUU)', 'G(AU)', 'F(G(AU)AF(U))', 'B(AF(U))U',
     'F()', 'G()F(U)', 'UG(U)F(U)', 'AAF(U)']
T = ['F(UF(UF(U)))', 'F(F(U)F(U))F(U)', 'F(F(F(U)U)U)U', 'G(F(G(F(U)U)U))', 'F(UUU)F(U)', 'F(AF(AG(AU)AU)AU)', 'B(F(B(UU)))F(U)', 'UUUU', 'F(U)F(U)F(U)', 'G(G(F(UU)))AUF(U)']


def run(ck, tier):
    th = tier == 'thorough'
    hs = []
    for i, s in enumerate(Q + (T if th else [T[0], T[2]])):
        for root in ((0, 1) if th else (i % 2,)):
            hs.append(cb.H('c21_%d_%d' % (i, root), 'c21.c', ['clast.c'], ['-DSTUB_GMP', '-DVK=4', '-DSHAPE="%s"' % s, '-DROOT=%d' % root, '-DNST=%d' % (4 if th else 3)],
                           unwind=12, nd=64, timeout=900 if th else 150, native_extra=UNRES, flags=['--object-bits', '12', '--no-standard-checks'], functions=['clast_filter'],
                           bounds='tree %s; statement numbers in 1..3 (possibly equal), 2 iterator names, any filter of distinct statement numbers, both filter types' % s))
    ck.assumptions += ['malloc does not fail', 'the statement filter lists a number at most once', 'realloc grows in place (the stub of the harness)']
    cb.check(ck, hs, jobs=8)
    ck.cov['explanation'] = 'clast_filter encoded from source/clast.c; every content and filter of the listed trees decided by SAT'
