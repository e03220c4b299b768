#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table.
(Only run by hand; the checks never read it.)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, tech=None, level='translation_validation', note='', na=None,
      observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                                   observe_at=list(observe), hook_needed=None),
                  _t=tech, _l=level, _n=note, _na=na))


TV = ('solver-based translation validation: the program the real generator emits is encoded in SMT (z3) and '
      'each obligation is decided for all parameter values and all iteration points')
TVN = ('Per emitted program the verdict is for every integer parameter value and iteration point (unbounded linear '
       'integer arithmetic with divisions); the programs are fixed families, seeded random problems and the inputs of '
       '/repo/test. Trusted: isl, gmp, the SMT encoding of C/Fortran expressions in /verif/vlib, the independent reader of the '
       'input format. Counterexamples are replayed by compiling and running the emitted code.')
CB = 'bounded symbolic execution of the real C source (CBMC) with symbolic inputs'

p('C01', 'Generated code executes every iteration exactly once',
  'For every input problem and every value of its parameters admitted by the context, running the generated code executes each statement '
  'exactly once for each integer point of its domain, with that point as its arguments, and executes nothing else. '
  'This includes domains that are unions, existentially quantified, empty, or bounded only through parameters.',
  ['inputs', 'programs'], 'every problem CLooG accepts, every parameter value in the context, every integer point',
  'The tests compare text with recorded output, or run a few dozen nests for one parameter value each; coverage for other parameter '
  'values (negative, equal, crossing bounds) and other domains is not observed.',
  ['source/loop.c', 'source/clast.c', 'source/isl/domain.c', 'source/isl/constraints.c', 'source/program.c'],
  [('separation into disjoint loops', 'source/loop.c cloog_loop_separate, cloog_loop_restrict, cloog_loop_disjoint'),
   ('simplification against the context', 'source/loop.c cloog_loop_simplify'),
   ('loop bounds and guards', 'source/clast.c insert_loop, insert_for, insert_guard, insert_modulo_guard')], TV, note=TVN,
  observe=['the C code printed on standard output'])

p('C02', 'Generated code follows the lexicographic order of the schedule',
  'For every parameter value, when the schedule gives one instance a lexicographically smaller date than another, the generated code '
  'executes it first. Without schedules the instances run in the lexicographic order of the iteration vectors.',
  ['inputs', 'programs', 'schedules'], 'every problem, every affine schedule, every parameter value, every pair of instances',
  'A textual comparison fixes one program; order between instances for all parameter values is never observed, and the run-time tests '
  'only compare the sum of a checksum for one size.',
  ['source/loop.c', 'source/isl/domain.c', 'source/program.c', 'source/clast.c'],
  [('topological sort of the loops of a level', 'source/loop.c cloog_loop_sort, source/isl/domain.c cloog_domain_sort'),
   ('scattering functions applied to the domains', 'source/loop.c cloog_loop_scatter, source/isl/domain.c cloog_domain_scatter'),
   ('scalar dimensions', 'source/program.c cloog_program_extract_scalars, source/loop.c cloog_loop_generate_scalar'),
   ('separation of components and backtracking', 'source/loop.c cloog_loop_generate_components')], TV, note=TVN,
  observe=['the C code printed on standard output'])

p('C03', 'Code generation options never change which instances run, or their order',
  'Whatever the separation range, hull, equality spreading, one-time-loop, unrolling, blocking or formatting options, the generated code '
  'executes exactly the same instances as with default options, in an order compatible with the schedule (unless the user lifts that '
  'promise with the override option).',
  ['inputs', 'configurations', 'programs'], 'every problem x every combination of documented code generation options x every parameter value',
  'Each test uses one or two option settings on one input and compares text.',
  ['source/loop.c', 'source/options.c', 'source/program.c', 'source/clast.c', 'source/isl/domain.c'],
  [('first/last depth handling', 'source/program.c cloog_program_generate, source/loop.c cloog_loop_generate_general'),
   ('hulls of unseparated loops', 'source/loop.c cloog_loop_merge, source/isl/domain.c cloog_domain_simple_convex'),
   ('one time loops', 'source/clast.c insert_otl_for, insert_equation'),
   ('unrolling', 'source/loop.c cloog_loop_unroll')], TV, note=TVN, observe=['the C code printed on standard output'])

p('C04', 'Loops over lattices visit exactly the lattice points',
  'When a domain or schedule constrains an iterator to a residue class (possibly depending on parameters and outer iterators), the generated '
  'loops and guards visit exactly the points of that class inside the bounds, whether or not strides are requested.',
  ['inputs', 'programs', 'configurations'], 'every modulus, offset, nesting of lattices, sign of bounds, with and without stride detection',
  'A handful of recorded outputs have strides; no test varies offsets or negative bounds.',
  ['source/loop.c', 'source/isl/domain.c', 'source/clast.c', 'source/stride.c'],
  [('stride detection', 'source/isl/domain.c cloog_domain_list_stride, source/loop.c cloog_loop_stride'),
   ('first point of the lattice above the lower bound', 'source/clast.c update_lower_bound, source/isl/constraints.c cloog_constraint_stride_lower_bound'),
   ('modulo guards', 'source/clast.c insert_modulo_guard, insert_extra_modulo_guards')], TV, note=TVN,
  observe=['the C code printed on standard output'])

p('C05', 'A bound or guard denotes its constraint for every coefficient',
  'The loop bound, assignment or guard generated for an affine constraint has, for every value of the iterators and parameters, exactly the integer '
  'solutions of that constraint, whatever the sign and size of the coefficients (rounding towards the inside of the domain, divisibility '
  'included).',
  ['inputs'], 'every integer coefficient, every iterator and parameter value',
  'Recorded outputs contain a few coefficients; each rounding case is one line of text.',
  ['source/clast.c', 'source/isl/constraints.c'],
  [('bound of a constraint', 'source/clast.c clast_bound_from_constraint, clast_minmax'),
   ('guards', 'source/clast.c insert_guard, insert_modulo_guard, insert_equation')],
  None, 'other')

p('C06', 'Printed C code means what the abstract syntax tree means',
  'For every abstract syntax tree the library can build, the printed C text parses back to the same loops, guards and assignments, and every '
  'printed expression has, for all variable values, the value of the tree it was printed from (operator precedence, unary minus, nested '
  'minima and maxima, floor and ceiling divisions, strides).',
  ['inputs', 'programs'], 'every tree of expressions and statements, every variable value',
  'The tests compare complete outputs on trees that the generator happens to build.',
  ['source/pprint.c', 'include/cloog/clast.h'],
  [('expression printing', 'source/pprint.c pprint_expr, pprint_term, pprint_sum, pprint_binary, pprint_minmax_c'),
   ('statement printing', 'source/pprint.c pprint_for, pprint_guard, pprint_assignment, pprint_stmt_list')],
  None, 'translation_validation')

p('C07', 'Fortran output executes the same instances in the same order',
  'For a problem in Fortran mode, the printed Fortran code executes each statement exactly once for each integer point of its domain, in schedule '
  'order, for every parameter value; its loops, conditions and intrinsic calls follow Fortran syntax.',
  ['inputs', 'programs', 'configurations'], 'every problem and option setting, language Fortran, every parameter value',
  'Only a few Fortran outputs are recorded as text; none is compiled or run.',
  ['source/pprint.c', 'source/program.c', 'source/clast.c'],
  [('Fortran printing', 'source/pprint.c pprint_for, pprint_guard, pprint_minmax_f, pprint_binary'),
   ('long line continuation', 'source/pprint.c'),
   ('language selection', 'source/input.c cloog_input_read, source/options.c')],
  TV, note=TVN, observe=['the Fortran code printed on standard output'])

p('C08', 'Division and min/max helpers of complete programs are exact',
  'The floor division, ceiling division, minimum and maximum helpers that are printed with a compilable program return, for every pair of '
  'operands with a positive divisor and a representable sum of magnitudes, the mathematical floor, ceiling, minimum and maximum, and can be used inside expressions and with expressions as operands.',
  ['inputs'], 'every pair of operand values of the printed helpers (divisor positive)',
  'The helpers are only exercised by the nests of the test suite, at small operands.',
  ['source/program.c'], [('helper macros printed', 'source/program.c print_macros, print_callable_preamble')],
  None, 'other')

p('C09', 'Compilable and callable outputs are complete programs that run the nest',
  'With the compilable or callable option the output is a self-contained C translation unit: it declares every identifier it uses, compiles, binds the '
  'parameters to the requested values, and its body executes exactly the instances of the problem in schedule order.',
  ['inputs', 'configurations', 'programs'], 'every problem, both options, every parameter value',
  'One run-time harness per recorded input is compiled with one parameter value.',
  ['source/program.c', 'source/clast.c', 'source/pprint.c'],
  [('preamble and postamble', 'source/program.c print_compilable_preamble, print_callable_preamble, print_declarations'),
   ('iterator declarations', 'source/program.c print_iterator_declarations')], TV, note=TVN,
  observe=['standard output with -compilable N and -callable 1'])

p('C10', 'Library objects are never used after release, released twice, or leaked',
  'Each library operation on domains, scatterings, constraint sets, strides, loop lists, statements, blocks, names, union domains, matrices and syntax trees reads only live objects, '
  'releases what it consumes exactly once, leaves its other arguments usable, and leaves nothing allocated once its result and those arguments are released.',
  ['inputs', 'histories'], 'every sequence of calls that respects the documented ownership, every list shape up to the bound',
  'Tests only look at standard output; memory errors are mostly invisible there.',
  ['source/loop.c', 'source/clast.c', 'source/isl/domain.c', 'source/block.c', 'source/statement.c', 'source/union_domain.c', 'source/names.c'],
  [('reference counting', 'source/block.c, source/union_domain.c, source/names.c, source/stride.c'),
   ('ownership conventions', 'source/isl/domain.c, source/loop.c')], None, 'other')

p('C11', 'Integer vector operations are exact',
  'The vector helpers on which all coefficient manipulation rests (copy, combination, negation, scaling, gcd and normalisation, first and last '
  'non-zero, comparison) compute exactly the mathematical result for every vector, and gcd/lcm/floor/ceiling division helpers agree with '
  'their definitions for every operand.',
  ['inputs'], 'every vector content up to the bounded length, every operand value',
  'Never called directly by a test.',
  ['source/int.c', 'include/cloog/int.h.in'],
  [('vector helpers', 'source/int.c cloog_seq_*'), ('scalar operations', 'include/cloog/int.h.in')], None, 'other')

p('C12', 'Matrices convert to domains and back without change of meaning',
  'A constraint matrix given to the library denotes exactly the integer points its rows describe (equalities, inequalities, parameters, constant), and the '
  'constraints or matrix obtained back from a domain describe the same set.',
  ['inputs'], 'every matrix content up to the bounded shape, every point',
  'Tests go through files and only observe final code.',
  ['source/isl/domain.c', 'source/matrix.c', 'source/isl/constraints.c'],
  [('import', 'source/isl/domain.c cloog_domain_from_cloog_matrix, cloog_scattering_from_cloog_matrix'),
   ('export', 'source/isl/domain.c cloog_domain_print_constraints, source/matrix.c')], None, 'translation_validation')

p('C13', 'Inputs mean what the format says, and malformed inputs are refused',
  'Every way the format allows to write the same problem (comments, blank lines, indentation, reordered, repeated or scaled rows, unions and existential columns, generated or given names) '
  'yields code for the same instances under the same names; a context, domain or scattering function that cannot be read or does not have the announced dimensions, or a list of names that is missing or too short, ends with an error message '
  'and a failure status instead of code for a different problem.',
  ['inputs', 'fault_sequences'], 'every layout of an input; every relation dimension; every text of a name list up to the bounded length',
  'All test inputs are well formed and in one layout.',
  ['source/input.c', 'source/matrix.c', 'source/names.c', 'source/loop.c', 'source/union_domain.c', 'source/isl/domain.c'],
  [('readers', 'source/input.c cloog_input_read, source/matrix.c cloog_matrix_read, source/names.c cloog_names_read_strings')],
  TV + '; CBMC on the readers with a symbolic buffer', 'translation_validation', TVN)

p('C14', 'A dumped problem reads back as the same problem',
  'The file written by the dump option describes the same problem as the input: read back, it yields code for the same instances in the '
  'same order with the same parameter names and language.',
  ['inputs'], 'every problem', 'No test reads a dumped file back.',
  ['source/program.c', 'source/input.c', 'source/names.c', 'source/union_domain.c', 'source/isl/domain.c'],
  [('dump', 'source/program.c cloog_program_dump_cloog, source/isl/domain.c cloog_domain_print_constraints')], TV, note=TVN)

p('C15', 'Loops of a level are ordered consistently with precedence',
  'Given how the integer points of several domains precede one another at a level, the ordering step returns a permutation in which no domain is '
  'placed before another one that must precede it whenever such a permutation exists.',
  ['inputs', 'schedules'], 'every precedence relation over the bounded number of domains, and every domain',
  'Tests exercise a few orders only.',
  ['source/isl/domain.c', 'source/loop.c'],
  [('comparison', 'source/isl/domain.c cloog_domain_sort, domain_follows_at_level'),
   ('topological order', 'source/isl/domain.c cloog_domain_sort, source/loop.c loop_sort')], None, 'other')

p('C16', 'Scalar dimensions and statement blocks are transparent',
  'Detecting constant schedule dimensions and merging statements with equal domains into blocks changes neither the executed instances nor '
  'their order: constants order the statements as the schedule says, negative and unequal constants included.',
  ['inputs', 'configurations', 'schedules'], 'every problem, with and without the two optimisations, every constant and parameter value',
  'Few inputs have several scalar dimensions; text comparison only.',
  ['source/program.c', 'source/loop.c', 'source/block.c', 'source/isl/domain.c'],
  [('scalar extraction', 'source/program.c cloog_program_extract_scalars, source/isl/domain.c cloog_scattering_lazy_isscalar'),
   ('block construction', 'source/program.c cloog_program_block, source/isl/domain.c cloog_scattering_lazy_block')], TV, note=TVN)

p('C17', 'Expression equality and copies are structural',
  'Two expressions compare equal exactly when they are structurally identical (a reduction of a single element has no visible operator), a copy is equal to '
  'and independent of its original, and the order by which sums are sorted is antisymmetric, transitive, and zero only for equal expressions.',
  ['inputs'], 'every pair (or triple) of expressions up to the bounded shape',
  'Never called directly by a test.',
  ['source/clast.c'], [('equality and order', 'source/clast.c clast_expr_equal, clast_expr_cmp, clast_expr_copy')], None, 'other')

p('C18', 'Options are read and interpreted as documented',
  'Every option of the command line sets exactly the setting it names to exactly the value given, in any position and order, and every other setting keeps its default; '
  'a missing value, a value that is not an integer (or not representable), a second input file, no input file, or a file that cannot be opened is refused with a message and a failure status; '
  'an unknown option is reported and otherwise ignored.',
  ['inputs', 'configurations'], 'every argument vector up to the bounded length',
  'Tests pass one or two options in a fixed order.',
  ['source/options.c', 'source/program.c'],
  [('parsing', 'source/options.c cloog_options_read, cloog_options_set'), ('defaults', 'source/options.c cloog_options_malloc')],
  None, 'other')

p('C19', 'The stop level prunes generation to an outer nest',
  'With a stop level, the generated code covers every point of the projection of each domain on the dimensions up to that level and contains no deeper '
  'loops or statement arguments; for a single convex statement without lattices it scans exactly the (rational) projection, each point once and in '
  'lexicographic order.',
  ['inputs', 'configurations'], 'every problem, every stop level, every parameter value',
  'One or two recorded outputs use it.', ['source/loop.c', 'source/program.c'],
  [('stop', 'source/loop.c cloog_loop_stop, cloog_loop_generate_restricted_or_stop')], TV, note=TVN)

p('C20', 'Names are those of the user and never collide',
  'Each iterator, parameter, schedule dimension and statement is printed under the name the input gives it (or a generated one), the same object '
  'under the same name everywhere, and distinct objects under distinct names.',
  ['inputs'], 'every combination of given, generated and missing names, any length and number',
  'Tests use the default or a fixed set of names.',
  ['source/names.c', 'source/pprint.c', 'source/program.c', 'source/clast.c'],
  [('name tables', 'source/names.c cloog_names_name_at_level, cloog_names_generate_items, cloog_names_scalarize')], TV, note=TVN)

p('C21', 'The syntax tree query interface reports the tree faithfully',
  'Filtering loops of a syntax tree by iterator or statements returns exactly the loops that match and the statements below them, and marking loops '
  'changes nothing else.',
  ['inputs', 'programs'], 'every tree up to the bounded shape, every filter',
  'No test uses the interface.', ['source/clast.c', 'include/cloog/clast.h'],
  [('filter', 'source/clast.c clast_filter')], None, 'other')

p('C22', 'Domain operations compute the set operations they are named after',
  'Union, intersection, difference, projection, extension, simplification in a context, hulls, stride and constancy queries on domains return '
  'sets and answers that are exact (or, for hulls, sound over-approximations) for every point.',
  ['inputs'], 'every pair of domains, every point',
  'Domain operations are never observed directly.',
  ['source/isl/domain.c', 'include/cloog/domain.h'],
  [('set operations', 'source/isl/domain.c cloog_domain_*')], None, 'translation_validation')

p('C23', 'The library interface generates the same code as the command',
  'A program that builds its input through the library (union domains, names, options, per-statement depths) and prints the resulting syntax tree obtains code that executes exactly '
  'the instances of its domains in schedule order, also when several inputs are processed by one state.',
  ['inputs', 'histories', 'configurations'], 'every input built through the interface, every sequence of inputs in a state',
  'Two small interface tests exist, on fixed inputs.',
  ['source/input.c', 'source/union_domain.c', 'source/program.c', 'source/clast.c', 'source/state.c'],
  [('programmatic input', 'source/union_domain.c, source/input.c cloog_input_alloc, source/clast.c cloog_clast_create_from_input')], TV, note=TVN)

exec(open(os.path.join(V, 'tools', 'over.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'over.py')) else None

checks, na = [], []
with open(V + '/properties.jsonl', 'w') as f:
    for q in P:
        f.write(json.dumps({k: v for k, v in q.items() if k[0] != '_'}) + '\n')
        if os.path.exists('%s/checks/%s.py' % (V, q['id'].lower())) and not q['_na']:
            checks.append(dict(property=q['id'], quick_cmd='python3-vt run.py %s quick' % q['id'],
                               thorough_cmd='python3-vt run.py %s thorough' % q['id'],
                               technique=q['_t'] or CB, level=q['_l'], level_note=q['_n'] or 'see DESIGN.md'))
        else:
            na.append(dict(property=q['id'], reason=q['_na'] or 'no solver-based check built yet (work in progress)'))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=na),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
