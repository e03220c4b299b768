"""Command line options (CBMC on source/options.c with symbolic texts)."""
from vlib import cb
LEVEL = 'other'
REN = ['-D%s=vx_%s' % (f, f) for f in ('exit', 'fopen', 'printf', 'fprintf', 'vfprintf')]
LOOPS = ['strcmp.0', 'eq.0', 'scan.0', 'scan.1', 'harness.0', 'harness.1', 'spec.0', 'spec.1', 'spec.2', 'argof.0']


def run(ck, tier):
    th = tier == 'thorough'
    hs = []

    def add(name, n, ln, fix='0', lenof=None, argc=None, t=300):
        hs.append(cb.H('c18_' + name, 'c18.c', ['options.c'], REN + ['-DNARG=%d' % n, '-DLEN=%d' % ln, '-DLENOF(i)=(%s)' % (lenof or str(ln)), '-DARGC=%s' % (argc or str(n + 1)),
                                                                      '-DFIX(i)=(%s)' % fix],
                       unwind=n + 1, unwindset=['%s:%d' % (f, max(ln, 14) + 2) for f in LOOPS], nd=4 * n * (ln + 2), timeout=1500 if th else t, native_extra=['-Wl,--unresolved-symbols=ignore-all'],
                       flags=['--object-bits', '12', '--no-standard-checks'], functions=['cloog_options_read', 'cloog_options_set', 'cloog_options_malloc', 'cloog_msg', 'cloog_die'],
                       bounds='%d arguments; texts of up to %s characters; fixed ones: %s; files may exist or not' % (n, lenof or ln, fix)))
    # one option of any text, a value of any text, the input file
    add('opt_val', 3, 24, 'i==3?"in":0', 'i==1?24:6')
    # the input file first, an option of any text and its value (or none) last
    add('in_opt', 2, 24, 'i==1?"in":0')
    add('in_opt_val', 3, 24, 'i==1?"in":0', 'i==2?24:4')
    # values of any length up to beyond the range of an int
    for o in ('-l', '-strides') if th else ('-l',):
        add('value' + o, 3, 14, 'i==1?"%s":i==3?"in":0' % o)
    # two options, with or without values, in any order
    add('two_flags', 3, 16, 'i==2?"in":0', '13')
    add('two_opts', 5, 16 if th else 9, 'i==5?"in":0', 'i%2?16:3' if th else 'i%2?8:2')
    add('three', 3, 10, '0', '10' if th else '8')
    add('none', 1, 24)
    cb.check(ck, hs, jobs=8)
    ck.cov['explanation'] = 'option parsing encoded from source/options.c; every text within the bounds decided by SAT against a table of the documented options'
