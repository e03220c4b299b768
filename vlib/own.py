"""Bodies for isl functions from the ownership annotations of the installed headers."""
import os, re, glob, zlib

HAND = {
    'isl_malloc_or_die': None,
    'isl_basic_set_list_free': 'isl_basic_set_list *isl_basic_set_list_free(isl_basic_set_list *l) { kill_(l); return NULL; }',
    'isl_basic_set_list_n_basic_set': 'isl_size isl_basic_set_list_n_basic_set(isl_basic_set_list *l) { use(l); return NBS; }',
    'isl_basic_set_list_get_basic_set': 'isl_basic_set *isl_basic_set_list_get_basic_set(isl_basic_set_list *l, int i) { use(l); return mkv(rot(val(l), 5 + 11 * i)); }',
    'isl_set_n_basic_set': 'isl_size isl_set_n_basic_set(isl_set *s) { use(s); return NBS; }',
    'isl_map_n_basic_map': 'isl_size isl_map_n_basic_map(isl_map *s) { use(s); return NBS; }',
    'isl_set_foreach_basic_set': 'isl_stat isl_set_foreach_basic_set(isl_set *s, isl_stat (*fn)(isl_basic_set *, void *), void *u) '
                                 '{ use(s); for (int i = 0; i < NBS; i++) if (fn(mkv(rot(val(s), 7 + 13 * i)), u) < 0) return -1; return 0; }',
    'isl_basic_set_foreach_constraint': 'isl_stat isl_basic_set_foreach_constraint(isl_basic_set *s, isl_stat (*fn)(isl_constraint *, void *), void *u) '
                                        '{ use(s); for (int i = 0; i < NC; i++) if (fn(mkv(rot(val(s), 7 + 13 * i)), u) < 0) return -1; return 0; }',
    'isl_union_map_foreach_map': 'isl_stat isl_union_map_foreach_map(isl_union_map *s, isl_stat (*fn)(isl_map *, void *), void *u) '
                                 '{ use(s); for (int i = 0; i < NBS; i++) if (fn(mkv(rot(val(s), 7 + 13 * i)), u) < 0) return -1; return 0; }',
    'isl_basic_set_has_defining_equality': 'isl_bool isl_basic_set_has_defining_equality(isl_basic_set *s, enum isl_dim_type t, int p, isl_constraint **c) '
                                           '{ use(s); V v = rot(val(s), 17 + p); if (v & 1) return 0; *c = mkv(v); return 1; }',
    'isl_basic_set_has_defining_inequalities': 'isl_bool isl_basic_set_has_defining_inequalities(isl_basic_set *s, enum isl_dim_type t, int p, isl_constraint **l, isl_constraint **u) '
                                               '{ use(s); V v = rot(val(s), 23 + p); if (v & 1) return 0; *l = mkv(v); *u = mkv(rot(v, 9)); return 1; }',
    'isl_set_dim_residue_class_val': 'isl_stat isl_set_dim_residue_class_val(isl_set *s, int p, isl_val **m, isl_val **r) { use(s); *m = mkv(rot(val(s), 29 + p)); *r = mkv(rot(val(s), 31 + p)); return 0; }',
    'isl_basic_set_total_dim': 'isl_size isl_basic_set_total_dim(const isl_basic_set *s) { use(s); return DIMS[1] + DIMS[3] + DIMS[4]; }',
}
MAYBE_NULL = ('isl_set_read_from_file', 'isl_map_read_from_file')


def headers():
    t = ''
    for f in sorted(x for x in glob.glob('/usr/include/isl/*.h') if 'cpp' not in os.path.basename(x)):
        t += open(f).read() + '\n;'
    t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
    t = re.sub(r'^\s*#(?:.*\\\n)*.*$', ';', t, flags=re.M)
    return t


def used(files):
    s = set()
    for f in files:
        t = re.sub(r'/\*.*?\*/', ' ', open(f).read(), flags=re.S)
        s |= set(re.findall(r'\b(isl_[a-z]\w*)\s*\(', t))
    if 'isl_alloc_array' in s:
        s.add('isl_malloc_or_die')
    return s


def protos(hdr):
    out = {}
    for m in re.finditer(r'([\w\s\*]*?[\s\*])(isl_\w+)\s*\(((?:[^();]|\([^()]*\))*)\)\s*;', hdr):
        out.setdefault(m.group(2), (m.group(1).strip(), m.group(3).strip()))
    return out


def stubs(files, defined):
    """C text; `defined`: names the linked sources define themselves."""
    P = protos(headers())
    o, missing = [], []
    for n in sorted(x for x in used(files) - set(defined) if not x.endswith('_gmp')):
        if n in HAND:
            o.append(HAND[n] or '')
            continue
        if n not in P:
            missing.append(n)
            continue
        ret, args = P[n]
        al, body, nul = [], [], []
        for i, a in enumerate([x.strip() for x in args.split(',')] if args not in ('void', '') else []):
            core = re.sub(r'__isl_\w+|__attribute__\s*\(\(.*?\)\)', '', a).strip()
            w = core.replace('*', ' * ').split()
            if len(w) > 1 and w[-1] != '*' and w[-2] not in ('enum', 'const', 'struct') and w[-1] not in ('int', 'long', 'char'):
                w = w[:-1]
            ty = ' '.join(w)
            al.append('%s a%d' % (ty, i))
            if '__isl_take' in a:
                body.append('kill_(a%d);' % i)
                nul.append('!a%d' % i)
            elif '__isl_keep' in a:
                body.append('use(a%d);' % i)
                nul.append('!a%d' % i)
        # the value of the result: the same for a copy, otherwise a function of the values of the arguments and of the function
        k = zlib.crc32(n.encode()) % 64
        v = []
        for i, a in enumerate(al):
            if body and any('(a%d)' % i in x for x in body):
                v.append('val(a%d)' % i if n.endswith('_copy') else 'rot(val(a%d), %d)' % (i, (k + 19 * i) % 64))
            elif '*' not in a:
                v.append('rot((V) a%d, %d)' % (i, (k + 5 + 19 * i) % 64))
        obj = any(x.startswith('val') or 'val(' in x for x in v)
        V = ' ^ '.join(v)
        if not obj:
            V = ''
        r = re.sub(r'__isl_(give|null|keep|export|constructor|overload)|\bextern\b', '', ret).strip()
        if '__isl_give' in ret or '__isl_null' in ret:
            if '__isl_null' in ret:
                body.append('return NULL;')
            elif 'char' in r:
                body.append('char *r = vx_malloc(2); r[0] = 49; r[1] = 0; return r;')
            else:
                if nul:
                    body.append('if (%s) return NULL;' % ' || '.join(nul))
                if n in MAYBE_NULL:
                    body.append('if (nd(0, 1)) return NULL;')
                if n.endswith('_if_fixed'):
                    body.append('if (%s & 1) return NULL;' % ('(%s)' % V if V else 'nd(0, 1)'))
                body[:0] = ['V v = %s;' % V] if V else []
                body.append('return %s;' % ('mkv(v)' if V else 'mk()'))
        elif r == 'void':
            pass
        elif 'isl_ctx' in r:
            body.append('return the_ctx();')
        elif 'isl_size' in r or n.endswith('_dim'):
            body.append('return %s;' % ('DIMS[a1 & 7]' if n.endswith('_dim') and len(al) > 1 else 'DIMS[3]'))
        elif 'isl_bool' in r or '_is_' in n:
            body.append('return %s;' % ('(%s) & 1' % V if V else 'nd(0, 1)'))
        elif 'isl_stat' in r:
            body.append('return 0;')
        elif 'char' in r:
            # parameters have names in every space a user can read or build by name
            body.append('static char nm[2] = "x"; return %s%s ? nm : NULL;' % ('a1 == isl_dim_param || ' if n.endswith('get_dim_name') else '', '((%s) & 1)' % V if V else 'nd(0, 1)'))
        else:
            body.append('int q = (%s) & 3; return q == 3 ? 0 : q - 1;' % V if V else 'return nd(-1, 1);')
        o.append('%s %s(%s) { %s }' % (r, n, ', '.join(al) or 'void', ' '.join(body)))
    return '\n'.join(x for x in o if x), missing
