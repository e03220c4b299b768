"""Ownership of the library's objects: CBMC on the real functions; isl is replaced by handles whose life is governed by the annotations of its headers."""
import os, re
from vlib import cb, common, own
LEVEL = 'solver_bounded'
UNRES = ['-Wl,--unresolved-symbols=ignore-all']
R = common.REPO + '/source/'
VX = ['-Dmalloc=vx_malloc', '-Dfree=vx_free', '-Dcalloc=vx_calloc', '-Dstrdup=vx_strdup', '-Drealloc=vx_realloc', '-Dstrndup=vx_strndup', '-Dsnprintf=vx_snprintf', '-Dsprintf=vx_sprintf', '-include', 'string.h']
OWNED = ['isl_set_from_cloog_domain', 'isl_map_from_cloog_scattering', 'isl_val_to_cloog_int', 'isl_constraint_read_from_matrix',
         'isl_basic_set_read_from_matrix', 'isl_basic_map_read_from_matrix']

S1 = ['union_domain.c', 'input.c', 'isl/domain.c', 'isl/constraints.c', 'stride.c', 'names.c', 'clast.c']
# what a caller may rely on (comments of the functions, include/cloog/*.h, doc/cloog.texi, and the callers): k: the argument is still the
# caller's after the call, t: it is not
D = 'isl/domain.c'
C = 'isl/constraints.c'
TABLE = [
    ('cloog_domain_copy', 'dk', 'd'), ('cloog_domain_convex', 'dk', 'd'), ('cloog_domain_simple_convex', 'dk', 'd'),
    ('cloog_domain_simplify', 'dk dk', 'd'), ('cloog_domain_union', 'dt dt', 'd'), ('cloog_domain_intersection', 'dk dk', 'd'),
    ('cloog_domain_difference', 'dk dk', 'd'), ('cloog_domain_follows', 'dk dk i:1:2', '-'), ('cloog_domain_empty', 'dk', 'd'),
    ('cloog_domain_is_bounded', 'dk i:1:2', '-'), ('cloog_domain_bound_splitter', 'dk i:1:2', 'd'), ('cloog_domain_list_free', 'lt', '-'),
    ('cloog_scattering_list_free', 'slt', '-'), ('cloog_domain_read_context', 'S F', 'd'), ('cloog_domain_union_read', 'S F i:0:2', 'd'),
    ('cloog_domain_read_scattering', 'dk F', 's'), ('cloog_domain_from_context', 'dt', 'd'), ('cloog_domain_constraints', 'dk', 'k'),
    ('cloog_domain_isempty', 'dk', '-'), ('cloog_domain_universe', 'S i:0:2', 'd'), ('cloog_domain_project', 'dk i:0:2', 'd'),
    ('cloog_domain_extend', 'dk i:0:3', 'd'), ('cloog_domain_never_integral', 'dk', '-'), ('cloog_domain_stride', 'dk i:1:2 p p', '-'),
    ('cloog_domain_can_stride', 'dk i:1:2', '-'), ('cloog_domain_is_otl', 'dk i:1:2', '-'), ('cloog_domain_stride_lower_bound', 'dt i:1:2 rk', 'd'),
    ('cloog_domain_add_stride_constraint', 'dt rk', 'd'), ('cloog_domain_can_unroll', 'dk i:1:2 p pc', '-'),
    ('cloog_domain_fixed_offset', 'dt i:1:2 ck v', 'd'), ('cloog_domain_lazy_disjoint', 'dk dk', '-'), ('cloog_domain_lazy_equal', 'dk dk', '-'),
    ('cloog_scattering_lazy_block', 'sk sk slk i:0:2', '-'), ('cloog_scattering_lazy_isscalar', 'sk i:0:1 p', '-'),
    ('cloog_scattering_lazy_isscalar', 'sk i:0:1 NULL', '-'), ('cloog_domain_lazy_isconstant', 'dk i:0:1 p', '-'),
    ('cloog_domain_lazy_isconstant', 'dk i:0:1 NULL', '-'),
    ('cloog_scattering_list_lazy_same', 'slk', '-'), ('cloog_domain_cut_first', 'dt pd', 'd'), ('cloog_domain_simplify_union', 'dt', 'd'),
    ('cloog_scattering_erase_dimension', 'sk i:0:1', 's'), ('cloog_domain_dimension', 'dk', '-'), ('cloog_domain_parameter_dimension', 'dk', '-'),
    ('cloog_scattering_dimension', 'sk dk', '-'), ('cloog_domain_isconvex', 'dk', '-'), ('cloog_domain_cube', 'S i:0:2 v v', 'd'),
    ('cloog_domain_scatter', 'dt sk', 'd'), ('cloog_scattering_fully_specified', 'sk dk', '-'), ('cloog_domain_list_stride', 'lk i:1:2', 'r'),
    ('cloog_domain_print_constraints', 'F dk i:0:1', '-'), ('cloog_scattering_print_constraints', 'F sk', '-'),
    ('cloog_union_domain_from_isl_set', 'dt', 'u'), ('cloog_union_domain_from_isl_union_map', 'mt', 'u'),
    ('cloog_domain_from_isl_set', 'dt', 'd'),
    # constraints
    ('cloog_constraint_set_copy', 'kk', 'k'), ('cloog_constraint_set_simplify', 'kk ek i:1:2 i:0:2', 'k'),
    ('cloog_constraint_set_contains_level', 'kk i:1:2 i:0:2', '-'), ('cloog_constraint_set_total_dimension', 'kk', '-'),
    ('cloog_constraint_set_n_iterators', 'kk i:0:2', '-'), ('cloog_constraint_set_defining_equality', 'kk i:1:2', 'c'),
    ('cloog_constraint_set_defining_inequalities', 'kk i:1:2 pc i:0:2', 'c'), ('cloog_constraint_needs_reduction', 'ck i:1:2', '-'),
    ('cloog_constraint_set_for_reduction', 'ck ck', 'k'), ('cloog_constraint_copy', 'ck', 'c'), ('cloog_constraint_total_dimension', 'ck', '-'),
    ('cloog_constraint_involves', 'ck i:0:2', '-'), ('cloog_constraint_is_lower_bound', 'ck i:0:2', '-'),
    ('cloog_constraint_is_upper_bound', 'ck i:0:2', '-'), ('cloog_constraint_is_equality', 'ck', '-'), ('cloog_constraint_constant_get', 'ck p', '-'),
    ('cloog_constraint_coefficient_get', 'ck i:0:2 p', '-'), ('cloog_constraint_copy_coefficients', 'ck pa', '-'),
    ('cloog_constraint_set_drop_constraint', 'kt ck', 'k'), ('cloog_equal_constraint', 'ekf i:0:0', 'c'),
    ('cloog_constraint_stride_lower_bound', 'ct i:1:2 rn', 'c'), ('cloog_equal_add', 'ek0 kk i:1:2 ck i:0:2', '-'), ('cloog_equal_del', 'ek i:1:2', '-'),
    ('cloog_constraint_set_reduce', 'kt i:1:2 ek i:0:2 p', 'k'),
]

FREE = {'d': 'cloog_domain_free', 's': 'cloog_scattering_free', 'c': 'cloog_constraint_release', 'k': 'cloog_constraint_set_free',
        'r': 'cloog_stride_free', 'u': 'cloog_union_domain_free', 'x': 'free_clast_expr'}
TYPE = {'d': 'CloogDomain *', 's': 'CloogScattering *', 'c': 'CloogConstraint *', 'k': 'CloogConstraintSet *', 'r': 'CloogStride *',
        'u': 'CloogUnionDomain *', 'x': 'struct clast_expr *'}


def body(fn, args, ret):
    pre, call, post = [], [], []
    for i, a in enumerate(args.split()):
        v = 'a%d' % i
        if a in ('dk', 'dt', 'sk', 'st', 'ck', 'ct', 'kk', 'kt'):
            pre.append('%s%s = mk();' % (TYPE[a[0]], v))
            if a[1] == 'k':
                post.append('%s(%s);' % (FREE[a[0]], v))
        elif a == 'mt':
            pre.append('isl_union_map *%s = mk();' % v)
        elif a[:2] == 'i:':
            pre.append('int %s = nd(%s, %s);' % ((v,) + tuple(a[2:].split(':'))))
        elif a == 'v':
            pre.append('cloog_int_t %s = nd(-3, 3);' % v)
        elif a == 'p':
            pre.append('cloog_int_t %s_ = nd(0, 3), *%s = &%s_;' % (v, v, v))
        elif a == 'pa':
            pre.append('cloog_int_t %s[9];' % v)
        elif a == 'pd':
            pre.append('CloogDomain *%s_, **%s = &%s_;' % (v, v, v))
            post.append('cloog_domain_free(%s_);' % v)
        elif a == 'pc':
            pre.append('CloogConstraint *%s_ = NULL, **%s = &%s_;' % (v, v, v))
            post.append('cloog_constraint_release(%s_);' % v)
        elif a in ('lk', 'lt'):
            pre.append('CloogDomainList *%s = vx_malloc(sizeof(*%s)); %s->domain = mk(); %s->next = NULL; '
                       'if (nd(0, 1)) { %s->next = vx_malloc(sizeof(*%s)); %s->next->domain = mk(); %s->next->next = NULL; }' % ((v,) * 8))
            if a == 'lk':
                post.append('cloog_domain_list_free(%s);' % v)
        elif a in ('slk', 'slt'):
            pre.append('CloogScatteringList *%s = NULL; for (int q = nd(0, 2); q > 0; q--) { CloogScatteringList *z = vx_malloc(sizeof(*z)); z->scatt = mk(); z->next = %s; %s = z; }' % (v, v, v))
            if a == 'slk':
                post.append('cloog_scattering_list_free(%s);' % v)
        elif a[0] == 'r':
            pre.append('CloogStride *%s = %snd(0, 1) ? cloog_stride_alloc(nd(1, 3), nd(0, 2)) : cloog_stride_alloc_from_constraint(nd(1, 3), mk(), nd(0, 2));' %
                       (v, '' if a == 'rn' or 'lower' in fn else 'nd(0, 1) ? NULL : '))
            post.append('cloog_stride_free(%s);' % v)
        elif a[:2] == 'ek':
            pre.append('CloogEqualities *%s = cloog_equal_alloc(3, 2, DIMS[1]);' % v)
            if a == 'ek':
                pre.append('if (nd(0, 1)) %s->constraints[0] = mk(), %s->types[0] = nd(1, 4); if (nd(0, 1)) %s->constraints[1] = mk(), %s->types[1] = nd(1, 4);' % (v, v, v, v))
            elif a == 'ekf':
                pre.append('%s->constraints[0] = mk();' % v)
            post.append('cloog_equal_free(%s);' % v)
        elif a == 'S':
            pre.append('CloogState *%s = the_state();' % v)
        elif a == 'F':
            pre.append('FILE *%s = stdout;' % v)
        elif a == 'NULL':
            pre.append('void *%s = NULL;' % v)
        elif a == 'N':
            pre.append('static CloogNames n_; CloogNames *%s = &n_; n_.nb_scattering = 0; n_.nb_iterators = 4; static char *it_[4] = {"i", "j", "k", "l"}; n_.iterators = it_; '
                       'n_.nb_parameters = 4; n_.parameters = it_;' % v)
        call.append(v)
    c = '%s(%s)' % (fn, ', '.join(call))
    if ret != '-':
        c = '%sr_ = %s; %s(r_)' % (TYPE[ret], c, FREE[ret])
    return 'void body(void)\n{\n\t%s\n\t%s;\n\t%s\n}\n' % ('\n\t'.join(pre), c, '\n\t'.join(post))


# the loop list operations, with every domain operation replaced by one that obeys TABLE
LOOPGEN = r'''
#ifndef MAXP
#define MAXP 2
#endif
static int np(const CloogDomain *d) { return d ? (int) (val(d) % 4 == 3 ? 1 : val(d) % 4) : 0; }
static CloogDomain *dom(V v, int n) { if (n > MAXP) n = MAXP; return mkv((v & ~(V) 3) | (V) n); }
static CloogDomain *upto(V v, int n) { int k = v >> 7 & 3; return dom(v, k < n ? k : n); }
void cloog_domain_free(CloogDomain *d) { kill_(d); }
CloogDomain *cloog_domain_copy(CloogDomain *d) { use(d); return d ? mkv(val(d)) : NULL; }
int cloog_domain_isempty(CloogDomain *d) { use(d); return np(d) == 0; }
int cloog_domain_isconvex(CloogDomain *d) { use(d); return MAXP == 1 || np(d) <= 1; }
CloogDomain *cloog_domain_simplify_union(CloogDomain *d) { kill_(d); return upto(rot(val(d), 2) | (V) 1 << 7, np(d)); }
CloogDomain *cloog_domain_cut_first(CloogDomain *d, CloogDomain **rest) { kill_(d); *rest = dom(rot(val(d), 12), np(d) ? np(d) - 1 : 0); return dom(rot(val(d), 24), np(d) ? 1 : 0); }
CloogDomain *cloog_domain_difference(CloogDomain *a, CloogDomain *b) { use(a); use(b); return upto(rot(val(a), 4) ^ rot(val(b), 36), np(a)); }
CloogDomain *cloog_domain_intersection(CloogDomain *a, CloogDomain *b) { use(a); use(b); return upto(rot(val(a), 8) ^ rot(val(b), 40), np(a)); }
CloogDomain *cloog_domain_union(CloogDomain *a, CloogDomain *b) { kill_(a); kill_(b); return dom(rot(val(a), 10) ^ rot(val(b), 42), np(a) + np(b)); }
CloogDomain *cloog_domain_empty(CloogDomain *a) { use(a); return dom(rot(val(a), 14), 0); }
CloogDomain *cloog_domain_convex(CloogDomain *a) { use(a); return dom(rot(val(a), 16), np(a) > 0); }
CloogDomain *cloog_domain_simple_convex(CloogDomain *a) { use(a); return dom(rot(val(a), 18), np(a) > 0); }
CloogDomain *cloog_domain_project(CloogDomain *a, int l) { use(a); return upto(rot(val(a), 20 + l), np(a)); }
CloogDomain *cloog_domain_extend(CloogDomain *a, int l) { use(a); return dom(rot(val(a), 22 + l), np(a)); }
CloogDomain *cloog_domain_simplify(CloogDomain *a, CloogDomain *b) { use(a); use(b); return upto(rot(val(a), 26) ^ rot(val(b), 46), np(a)); }
CloogDomain *cloog_domain_bound_splitter(CloogDomain *a, int l) { use(a); return upto(rot(val(a), 28 + l), 2); }
CloogDomain *cloog_domain_stride_lower_bound(CloogDomain *a, int l, CloogStride *s) { kill_(a); if (s) use(s->constraint); return dom(rot(val(a), 30 + l), np(a)); }
CloogDomain *cloog_domain_add_stride_constraint(CloogDomain *a, CloogStride *s) { kill_(a); if (s) use(s->constraint); return upto(rot(val(a), 32), np(a)); }
CloogDomain *cloog_domain_fixed_offset(CloogDomain *a, int l, CloogConstraint *c, cloog_int_t o) { kill_(a); use(c); return upto(rot(val(a), 34 + l + (int) o), np(a)); }
CloogDomain *cloog_domain_scatter(CloogDomain *a, CloogScattering *s) { kill_(a); use(s); return dom(rot(val(a), 38), np(a)); }
CloogStride *cloog_domain_list_stride(CloogDomainList *l, int lev) { V v = 0; for (; l; l = l->next) { use(l->domain); v ^= rot(val(l->domain), 44); } return v & 1 ? cloog_stride_alloc(2, 0) : v & 2 ? cloog_stride_alloc_from_constraint(2, mkv(v), 1) : NULL; }
void cloog_domain_list_free(CloogDomainList *l) { while (l) { CloogDomainList *n = l->next; kill_(l->domain); vx_free(l); l = n; } }
int cloog_domain_can_unroll(CloogDomain *a, int l, cloog_int_t *n, CloogConstraint **lb) { use(a); V v = rot(val(a), 48 + l); *lb = NULL; if (v & 1) return 0; *n = v >> 1 & 1 ? 2 : 1; *lb = mkv(v); return 1; }
void cloog_domain_stride(CloogDomain *a, int l, cloog_int_t *s, cloog_int_t *o) { use(a); *s = 1 + (rot(val(a), 50 + l) & 1); *o = *s == 1 ? 0 : rot(val(a), 51 + l) & 1; }
int cloog_domain_can_stride(CloogDomain *a, int l) { use(a); return rot(val(a), 52 + l) & 1; }
int cloog_domain_is_otl(CloogDomain *a, int l) { use(a); return rot(val(a), 53 + l) & 1; }
int cloog_domain_is_bounded(CloogDomain *a, unsigned l) { use(a); return rot(val(a), 54 + l) & 1; }
int cloog_domain_never_integral(CloogDomain *a) { use(a); return np(a) == 0 || rot(val(a), 55) & 1; }
int cloog_domain_dimension(CloogDomain *a) { use(a); return rot(val(a), 56) % 4 == 3 ? 0 : rot(val(a), 56) % 4; }
int cloog_domain_lazy_equal(CloogDomain *a, CloogDomain *b) { use(a); use(b); return (rot(val(a), 57) ^ rot(val(b), 57)) & 1 ? 0 : 1; }
int cloog_domain_lazy_disjoint(CloogDomain *a, CloogDomain *b) { use(a); use(b); return (rot(val(a), 58) ^ rot(val(b), 58)) & 1; }
int cloog_domain_lazy_isconstant(CloogDomain *a, int l, cloog_int_t *v) { use(a); if (v) *v = 0; return rot(val(a), 59 + l) & 1; }
int cloog_domain_follows(CloogDomain *a, CloogDomain *b, unsigned l) { use(a); use(b); return (rot(val(a), 60) ^ rot(val(b), 61)) & 1; }
void cloog_domain_sort(CloogDomain **d, unsigned n, unsigned l, int *permut) { for (unsigned i = 0; i < n; i++) use(d[i]); if (n == 2) { int k = val(d[0]) >> 9 & 1; permut[0] = 1 + k; permut[1] = 2 - k; } else for (unsigned i = 0; i < n; i++) permut[i] = n - i; }
void cloog_constraint_release(CloogConstraint *c) { kill_(c); }
CloogConstraint *cloog_constraint_invalid(void) { return NULL; }
int cloog_constraint_is_valid(CloogConstraint *c) { return c != NULL; }
#define malloc vx_malloc
#define free vx_free
#define calloc vx_calloc
#define realloc vx_realloc
#define strdup vx_strdup
#include "loop.c"
static CloogBlock *blk(void) { return cloog_block_alloc(cloog_statement_alloc(the_state(), 1), 0, NULL, 1); }
/* the loops of a list have inner loops, or (leaf) a block */
static CloogLoop *lp(int n, int leaf, int depth)
{
	CloogLoop *l = NULL;
	for (int i = 0; i < n; i++) {
		CloogLoop *k = cloog_loop_malloc(the_state());
		k->domain = mk();
		if (leaf < 2 && nd(0, 1)) k->stride = nd(0, 1) ? cloog_stride_alloc(2, 0) : cloog_stride_alloc_from_constraint(2, mk(), 1);
		if (leaf == 2 || (leaf == 1 && nd(0, 1))) k->block = blk();
		else if (depth) { k->inner = lp(1, 0, 0); k->inner->block = blk(); }
		k->next = l; l = k;
	}
	return l;
}
'''
LOOPS = [  # name, leaf loops allowed, loops, the call; a: the list, c: a context that stays the caller's
    ('loop_copy', 1, 2, 'CloogLoop *r = cloog_loop_copy(a); cloog_loop_free(a);'), ('loop_disjoint', 2, 1, 'CloogLoop *r = cloog_loop_disjoint(a);'),
    ('loop_restrict_all', 1, 2, 'CloogLoop *r = cloog_loop_restrict_all(a, c);'), ('loop_restrict_inner', 0, 2, 'CloogLoop *r = cloog_loop_restrict_inner(a);'),
    ('loop_project_all', 1, 2, 'CloogLoop *r = cloog_loop_project_all(a, 1);'), ('loop_combine', 0, 3, 'CloogLoop *r = cloog_loop_combine(a);'),
    ('loop_remove_empty', 1, 2, 'CloogLoop *r = cloog_loop_remove_empty_domain_loops(a);'),
    ('loop_propagate', 0, 2, 'CloogLoop *r = cloog_loop_propagate_lower_bound(a, 1);'), ('loop_separate', 3, 2, 'CloogLoop *r = cloog_loop_separate(a);'),
    ('loop_merge', 0, 2, 'static CloogOptions o; o.sh = nd(0, 1); CloogLoop *r = cloog_loop_merge(a, nd(0, 1), &o);'),
    ('loop_sort', 0, 2, 'CloogLoop *r = cloog_loop_sort(a, nd(0, 1));'), ('loop_nest', 2, 1, 'CloogLoop *r = cloog_loop_nest(a, c, nd(1, 2));'),
    ('loop_stride', 0, 1, 'cloog_stride_free(a->stride); a->stride = NULL; cloog_loop_stride(a, 1); CloogLoop *r = a;'),
    ('loop_stop', 1, 2, 'CloogLoop *r = cloog_loop_stop(a, c);'), ('loop_constant', 0, 2, 'CloogLoop *r = cloog_loop_constant(a, 1);'),
    ('loop_unroll', 0, 1, 'CloogLoop *r = cloog_loop_unroll(a, 1);'),
    ('loop_simplify', 2, 1, 'static CloogOptions o; o.save_domains = nd(0, 1); CloogLoop *r = cloog_loop_simplify(a, c, 1, nd(0, 1), &o);'),
    ('loop_scatter', 1, 1, 'CloogScattering *z = mk(); cloog_loop_scatter(a, z); kill_(z); CloogLoop *r = a;'),
    ('loop_concat', 1, 1, 'CloogLoop *b = nd(0, 1) ? lp(1, 1, 1) : NULL; CloogLoop *r = cloog_loop_concat(a, b);'),
]
STMT = 'static CloogStatement *st(int n) { CloogStatement *l = NULL; for (; n > 0; n--) { CloogStatement *s = cloog_statement_alloc(the_state(), n); if (nd(0, 1)) s->name = vx_strdup("S"); s->next = l; l = s; } return l; }\n'
MISC = [  # structures that are shared by counting references
    ('stride', ['stride.c'], 'void body(void)\n{ CloogStride *s = nd(0, 1) ? cloog_stride_alloc(2, 1) : cloog_stride_alloc_from_constraint(2, mk(), 1), *t[3]; int n = nd(0, 3);'
     ' for (int i = 0; i < n; i++) t[i] = cloog_stride_copy(s); cloog_stride_free(s); for (int i = 0; i < n; i++) { use(t[i]->constraint); cloog_stride_free(t[i]); } }'),
    ('statement', ['statement.c'], STMT + 'void body(void)\n{ CloogStatement *a = st(nd(0, 2)), *b = cloog_statement_copy(a), *s = NULL, *n = NULL; cloog_statement_free(a);'
     ' cloog_statement_add(&s, &n, st(1)); if (nd(0, 1)) cloog_statement_add(&s, &n, st(1)); cloog_statement_free(s); cloog_statement_free(b); }'),
    ('block', ['block.c', 'statement.c'], STMT + 'void body(void)\n{ CloogBlock *a = cloog_block_alloc(st(nd(1, 2)), 1, vx_calloc(1, sizeof(cloog_int_t)), 1), *b = cloog_block_copy(a);'
     ' CloogBlockList *l = cloog_block_list_alloc(a); if (nd(0, 1)) { l->next = cloog_block_list_alloc(b); } if (nd(0, 1)) { cloog_block_free(a); cloog_block_list_free(l); cloog_block_free(b); }'
     ' else { cloog_block_list_free(l); cloog_block_free(b); CloogBlock *m = cloog_block_alloc(st(1), 0, NULL, 1); cloog_block_merge(a, m); cloog_block_free(a); } }'),
    ('names', ['names.c'], 'void body(void)\n{ CloogNames *n = nd(0, 1) ? cloog_names_generate(nd(0, 1), nd(0, 2), nd(0, 2), nd(0, 2), 115, 99, 105, 77) : cloog_names_alloc();'
     ' if (nd(0, 1)) { CloogNames *m = cloog_names_copy(n); cloog_names_free(n); n = m; } cloog_names_free(n); }'),
    ('union_domain', S1, 'void body(void)\n{ CloogUnionDomain *u = cloog_union_domain_alloc(nd(0, 2)); u = cloog_union_domain_add_domain(u, nd(0, 1) ? "S" : NULL, mk(), nd(0, 1) ? mk() : NULL, NULL);'
     ' if (nd(0, 1)) u = cloog_union_domain_add_domain(u, NULL, mk(), NULL, NULL); for (int i = nd(0, 2); i > 0; i--) u = cloog_union_domain_set_name(u, nd(0, 2), nd(0, 1), "n");'
     ' if (nd(0, 1)) { CloogInput *in = cloog_input_alloc(mk(), u); cloog_input_free(in); } else cloog_union_domain_free(u); }'),
    ('matrix', ['matrix.c'], 'void body(void)\n{ CloogMatrix *m = cloog_matrix_alloc(nd(0, 2), nd(0, 2)); cloog_matrix_free(m); }'),
]
CS = ['clast.c', 'isl/domain.c', 'isl/constraints.c', 'names.c', 'statement.c', 'stride.c', 'union_domain.c']
EX = {'term': 'tm()', 'bin': '&new_clast_binary(nd(0, 3), tm(), 2)->expr', 'red': 'rd()'}
WRAP = {'for': 'struct clast_for *f = new_clast_for(d, "i", %s, tm(), NULL); f->body = q; q = &f->stmt;',
        'guard': 'struct clast_guard *g = new_clast_guard(1); g->eq[0].LHS = %s; g->eq[0].RHS = tm(); g->then = q; q = &g->stmt;',
        'block': 'struct clast_block *b = new_clast_block(); b->body = q; q = &b->stmt; q->next = &new_clast_assignment("x", %s)->stmt;'}
for w in WRAP:
    for e in EX:
        MISC.append(('clast_%s_%s' % (w, e), CS, STMT +
     'static struct clast_expr *tm(void) { return &new_clast_term(nd(-1, 1), nd(0, 1) ? &new_clast_name("i")->expr : NULL)->expr; }\n'
     'static struct clast_expr *rd(void) { struct clast_reduction *r = new_clast_reduction(clast_red_sum, 2); r->elts[0] = tm(); r->elts[1] = tm(); return &r->expr; }\n'
     'void body(void)\n{ CloogDomain *d = mk(); CloogStatement *s = st(1); CloogNames *n = cloog_names_alloc(); struct clast_root *r = new_clast_root(n); cloog_names_free(n);'
     ' struct clast_user_stmt *u = new_clast_user_stmt(d, s, &new_clast_assignment(NULL, tm())->stmt); cloog_statement_free(s); struct clast_stmt *q = &u->stmt; '
     + WRAP[w] % EX[e] + ' r->stmt.next = q; cloog_domain_free(d); cloog_clast_free(&r->stmt); }'))


def gen(name, text):
    d = common.scratch() + '/own'
    os.makedirs(d, exist_ok=True)
    p = '%s/%s.inc' % (d, name)
    open(p, 'w').write(text)
    return p


def run(ck, tier):
    th = tier == 'thorough'
    hs = []
    S0 = ['isl/domain.c', 'isl/constraints.c', 'stride.c', 'union_domain.c', 'names.c', 'clast.c']
    stubs, missing = own.stubs([R + x for x in S0], OWNED)
    gen('stubs', stubs)

    def add(name, text, sources=S0, unwind=5, fns=(), t=120, defs=(), bounds='', unwindset=(), isl=True, optional=False):
        p = gen(name, ('#include "stubs.inc"\n' if isl else '') + text)
        hs.append(cb.H('c10_' + name, 'c10.c', list(sources), ['-I', cb.CB + '/own', '-DVH_GEN="%s"' % p] + VX + list(defs), kind='CLOOG_INT_LONG', unwind=unwind, nd=160,
                       timeout=900 if th else t, stub=False, native_extra=UNRES, unwindset=list(unwindset),
                       flags=['--object-bits', '10', '--no-standard-checks', '--pointer-check'], functions=list(fns), bounds=bounds, optional=optional))
    seen = {}
    for fn, args, ret in TABLE:
        seen[fn] = seen.get(fn, 0) + 1
        add(fn.replace('cloog_', '') + ('_%d' % seen[fn] if seen[fn] > 1 else ''), body(fn, args, ret), fns=[fn],
            unwind=8 if 'print' in fn else 5, unwindset=['vsnprintf.0:12', 'vsnprintf.1:12'],
            defs=['-DMAXD=1'] if 'splitter' in fn else [],
            bounds='every outcome of the isl queries; up to 2 parts, 2 constraints, 2 dimensions of each kind')
    for name, leaf, n, call in LOOPS:
        rec = ['cloog_loop_%s:3' % x for x in ('copy', 'free', 'free_parts', 'simplify', 'stop')] + ['loop_simplify:3', 'lp:2', 'cloog_loop_add_disjoint:2', 'cloog_loop_add_disjoint.0:3']
        add(name, LOOPGEN + 'void body(void)\n{ CloogLoop *a = lp(%s, %d, %d); CloogDomain *c = mk(); %s cloog_loop_free(r); cloog_domain_free(c); }\n' % ('nd(1, %d)' % n if n > 1 and leaf != 3 else n, leaf, leaf != 2, call),
            ['block.c', 'statement.c', 'stride.c'], unwind=5, fns=['cloog_' + name], defs=['-I', R] + (['-DMAXP=1'] if name == 'loop_separate' else []), isl=False, optional=True, unwindset=rec,
            bounds='lists of up to %d loops with one level of inner loops; domains of up to two parts, every outcome of the domain operations' % n)
    for name, src, text in MISC:
        add(name, ('' if 'isl/domain.c' in src else 'void cloog_constraint_release(CloogConstraint *c) { kill_(c); }\nCloogConstraint *cloog_constraint_invalid(void) { return NULL; }\n') + text,
            src, unwind=5, unwindset=['free_clast_expr:4', 'cloog_clast_free:6'] if name[:5] == 'clast' else [], isl='isl/domain.c' in src, bounds='up to three references')
    only = os.environ.get('C10')     # for development: a subset, with the verdict of each harness
    if only:
        hs[:] = [h for h in hs if re.search(only, h.name)]
    ck.assumptions += [
        'isl obeys the __isl_take/__isl_keep/__isl_give annotations of its installed headers, and its answers are functions of the values of its arguments (a 64-bit value per object)',
        'assertions of the code under test hold (they are taken as assumptions), and memory allocation succeeds',
        'for the loop list operations, each cloog_domain_* function obeys the ownership that its own harness establishes',
    ]
    ck.cov['bounds'] = ('sets of up to 2 parts and 2 constraints, spaces of up to 2 dimensions of each kind, lists of up to 2 (combine: 3) loops with one level of inner loops, '
                        'integer kind long; a whole generation (cloog_program_generate) and the recursion over integer divisions (cloog_constraint_variable_expr) are outside')
    out = cb.check(ck, hs, jobs=8)
    if only:
        for h, r in out:
            print(h.name, r['status'], round(r['time'], 1), r.get('why', '')[:300], [(b['desc'], b['where'], b['nd']) for b in r.get('bad', [])][:3])
