"""The helper macros of complete programs (CBMC on the text the real program prints)."""
import os, re
from vlib import cb, common, tvrun
LEVEL = 'other'
IN = 'c\n2 3\n# M\n1 1 0\n1 0 1\n0\n1\n1\n3 4\n# i M 1\n1 2 -1 -1\n1 -1 1 1\n1 0 1 0\n0 0 0\n0\n0\n'


def run(ck, tier):
    th = tier == 'thorough'
    exe = common.build_cloog()
    d = common.scratch() + '/c08'
    os.makedirs(d, exist_ok=True)
    open(d + '/in.cloog', 'w').write(IN)
    hs = []
    for mode, opts in (('compilable', ['-compilable', '5']), ('callable', ['-callable', '1'])):
        rc, so, se = common.run([exe] + opts + [d + '/in.cloog'], timeout=60)
        if rc:
            raise common.Inconclusive('no output with %s: %s' % (opts, se[-200:]))
        pre = re.split(r'^(?:int|void)\s+\w+\s*\([^;]*\)\s*\{?\s*$', so, flags=re.M)[0]
        pre = '\n'.join(l for l in pre.split('\n') if not re.match(r'#define\s+(S\d+|PARVAL)', l))
        dd = '%s/%s' % (d, mode)
        os.makedirs(dd, exist_ok=True)
        open(dd + '/preamble.h', 'w').write(pre)

        def add(op, r, div=None, t=200):
            hs.append(cb.H('c08_%s_%d_%s' % (mode, op, div or 'all'), 'c08.c', [], ['-I' + dd, '-DOP=%d' % op, '-DR=%d' % r] + (['-DD=%d' % div] if div else []),
                           unwind=2, nd=16, stub=False, native_stub=True, native_extra=['-lm'], timeout=900 if th else t, solver=['--sat-solver', 'cadical'],
                           flags=['--signed-overflow-check', '--div-by-zero-check'],
                           functions=['helpers printed by cloog_program_pprint with -%s' % mode],
                           bounds='operands in [-%d,%d], divisor %s' % (r, r, div or 'in [1,%d]' % r)))
        add(1, (1 << 28) - 1)
        add(0, 511 if th else 127)
        add(2, 63 if th else 31)
        for v in (1, 2, 3, 4, 5, 7, 8, 10, 16, 25, 100, 1000) if th else (1, 2, 3, 4, 5, 8):
            add(0, (1 << 15) - 1 if v > 2 else (1 << 28) - 1, v)
            add(2, 2047 if th else 255, v)
    ck.assumptions += ['operands are int and small enough that n+d is representable (within the stated bounds)']
    cb.check(ck, hs, jobs=8)
    ck.cov['explanation'] = 'the macro text is taken from the output of the program built from /repo on every run; all operand values within the bounds decided by SAT'
