"""The properties, their harnesses and bounds. tools/gen.py writes properties.jsonl and MANIFEST.json from this file."""
STUBS = ['libc is engine/libc.c: in-memory files, no signals, processes, sockets or terminal; qsort returns equal elements in reverse order',
         'libm functions and strtod of symbolic arguments are concretised (one path per value the solver returns)',
         'stack-overflow guard pages are not modelled: a harness stays far below the stack sizes']
PROPS = {}
def P(id, **k):
    assert id not in PROPS; PROPS[id] = k
def M(*a): return [dict(name=n, where=w) for n, w in a]
LVL = 'Symbolic execution of the compiled code (LLVM bitcode of the C sources and the mapper assembly gplc emits) with Z3 deciding every branch and assertion: no violation for any input within the stated bounds when the exploration is exhausted (evidence: exhausted_within_bounds). Trusted: gsym (self-tested, sampled paths re-run natively), the libc model, clang; nothing beyond the bounds.'

P('A01', title='Integer arithmetic is exact or raises the evaluation error',
  statement='For integer operands anywhere in the representable range, evaluating +, -, *, //, div, rem, mod, /\\, \\/, xor, <<, >>, \\, min, max, abs, sign, gcd, ^, inc, dec, lsb, msb and popcount (and nested expressions of them) yields exactly the mathematical result. When the result is not representable, or is undefined (zero divisor, 0 to a negative power, bit functions of a negative integer), the corresponding evaluation, type or domain error is raised; a wrong number is never returned. This is the same for inlined, meta-called and fast-math arithmetic, and for succ/2.',
  over=['inputs'], text='every pair of 61-bit integers and every integer evaluable, in compiled, meta-called and fast-math evaluation',
  why='The test programs evaluate a few thousand small sums; the boundaries of the 61-bit range, shifts and powers are reached by no test.',
  files=['src/BipsPl/arith_inl_c.c', 'src/BipsPl/arith_inl.pl', 'src/EnginePl/arch_dep.h', 'src/EnginePl/misc.c', 'src/Pl2Wam/code_gen.pl'],
  mech=M(('overflow tests', 'src/BipsPl/arith_inl_c.c Pl_Fct_Fast_* and mul_overflow/pow_overflow'), ('expression evaluation', 'src/BipsPl/arith_inl_c.c Load_Math_Expression'), ('inlined arithmetic', 'src/Pl2Wam/code_gen.pl, Pl_Math_Load_Value')),
  runs=[dict(name='int', src=['a01.pl', 'a01_fast.pl', 'a01.c'], flags={'a01_fast.pl': ['--fast-math']}, bounds=dict(nops=36), reach=[0, 1, 2, 3, 4, 5, 6], time=400,
             domain='operands over the full 61-bit range for + - * bit operations, shifts, min, max, unary functions; division: full-range dividend with divisors 0, +-1, +-2, 4, -8, +-2^30 and the extremes, 17-bit dividend with -10..10, 8-bit by 8-bit; gcd: -12..12 and 10 extremes; ^: see harness/a01.c')],
  functions=['Pl_Fct_Add', 'Pl_Fct_Fast_Add', 'Pl_Fct_Fast_Shl', 'Pl_Arith_Evaluate_2', 'Load_Math_Expression'],
  outside='division of two arbitrary 61-bit integers, powers of an arbitrary base above 6, gcd of arbitrary operands')

P('A03', title='Term comparison is the standard total order',
  statement='compare/3, ==, \\==, @<, @=<, @>, @>= realise one total order on all terms: variables, then floats by value, integers by value, atoms alphabetically, compound terms by arity, name and arguments left to right; they agree with each other, equality holds only for identical terms, and the order is antisymmetric and transitive. The arithmetic comparisons =:=, =\\=, <, =<, >, >= on integers decide exactly the order of their values over the whole integer range. Compiled and meta-called forms agree.',
  over=['inputs'], text='every pair (for the laws, triple) of terms up to depth 1 with arbitrary 61-bit integers, chosen floats, atoms and shared variables',
  why='Tests compare a handful of literal terms; large integers, mixed kinds and the interplay of the seven predicates are not reached.',
  files=['src/BipsPl/term_supp.c', 'src/BipsPl/term_inl_c.c', 'src/BipsPl/term_inl.pl', 'src/BipsPl/arith_inl_c.c'],
  mech=M(('standard order', 'src/BipsPl/term_supp.c Pl_Term_Compare'), ('ordering predicates', 'src/BipsPl/term_inl_c.c Pl_Compare_3, Pl_Blt_Term_*'), ('integer comparison', 'src/BipsPl/arith_inl_c.c Pl_Blt_*')),
  runs=[dict(name='order', src=['a03.pl'], reach=[0, 1, 2, 3], time=400, domain='pairs of terms of depth <= 1 over 2 variables, 61-bit integers, 49 doubles, 6 atoms, functors f/1 g/1 f/2 ./2; triples over a smaller set')],
  functions=['Pl_Term_Compare', 'Pl_Compare_3', 'Pl_Blt_Lt'], outside='deeper terms, other functors, NaN')

P('T01', title='Unification computes the most general unifier and nothing else',
  statement='X = Y succeeds exactly when the two terms are unifiable, binds their variables to a most general unifier, and makes the terms identical; when it fails, or after \\= and subsumes_term, no variable has changed. unify_with_occurs_check fails exactly on terms that are not unifiable by finite terms. Inlined, meta-called, clause-head and clause/2 unification all agree.',
  over=['inputs'], text='every pair of terms of depth up to 2 over four variables (shared, aliased, chained), arbitrary integers, atoms, floats, lists and structures',
  why='Tests unify a few literal terms; aliasing, chains of references and residual bindings after failure are combinations no test enumerates.',
  files=['src/EnginePl/unify.c', 'src/EnginePl/wam_inst.c', 'src/EnginePl/wam_inst.h', 'src/BipsPl/unify.pl', 'src/BipsPl/term_inl_c.c'],
  mech=M(('general unification', 'src/EnginePl/unify.c (included twice by wam_inst.c: with and without occurs check)'), ('binding and trailing', 'src/EnginePl/wam_inst.h Bind_UV'), ('head unification', 'src/EnginePl/wam_inst.c Pl_Get_*/Pl_Unify_*')),
  runs=[dict(name='unify', src=['t01.pl', 't01.c'], reach=[0, 1, 2], time=400, domain='pairs of terms of depth <= 2 over four shared or aliased variables, 61-bit integers, 31 doubles, atoms, functors f/1 g/2 ./2 r/4; variable-to-variable chains in every direction')],
  functions=['Pl_Unify', 'Pl_Unify_Occurs_Check'], outside='cyclic results of =, deeper terms, attributed variables do not exist')


P('T02', title='Terms are built, taken apart, copied and updated faithfully',
  statement='functor/3, arg/3, =.. and the type tests report exactly the name, arity, arguments and kind of any term and rebuild it; copy_term yields a fresh renaming sharing nothing, term_variables the distinct variables in depth-first order, subsumes_term exactly one-sided matching. setarg changes only the named argument and is undone on backtracking and by exceptions, nb_setarg is not. Ill-typed arguments raise the documented error and leave the term unchanged; inlined and called forms agree.',
  over=['inputs'], text='terms of depth up to 2 with shared variables and 61-bit integers, argument numbers and arities over the whole integer range, every kind of ill-typed argument',
  why='Argument numbers and arities at the edges, partial lists and residual effects after failure are not enumerated by tests.',
  files=['src/BipsPl/term_inl_c.c', 'src/BipsPl/term_inl.pl', 'src/BipsPl/term_supp.c', 'src/BipsPl/type_inl.pl', 'src/BipsPl/type_inl_c.c'],
  mech=M(('construction', 'src/BipsPl/term_inl_c.c Pl_Blt_Functor, Pl_Blt_Arg, Pl_Blt_Univ'), ('copying', 'src/BipsPl/term_supp.c Pl_Copy_Term'), ('update and trail', 'src/BipsPl/term_inl_c.c Pl_Setarg_4')),
  runs=[dict(name='terms', src=['t02.pl', 't02.c', 't01.c'], reach=[0, 1, 2, 3, 4, 5, 6, 7], time=400, domain='see statement; arities 5..253 excluded for functor/3')],
  functions=['Pl_Blt_Functor', 'Pl_Blt_Arg', 'Pl_Blt_Univ', 'Pl_Copy_Term', 'Pl_Setarg_4', 'Pl_Term_Variables_3', 'Pl_Subsumes_Term_2'], outside='cyclic terms, FD variables, representation limits on the number of variables')

P('S01', title='Sorting returns the ordered permutation of its input',
  statement='sort/2 returns the strictly ascending list of the distinct elements, msort/2 the ascending list of all elements, keysort/2 the pairs in ascending key order with equal keys in their original order (stable), all with respect to the standard order of terms. The one-argument forms leave exactly that list in place of the original; the two-argument forms leave their input untouched; setof/3 agrees with sort/2. Partial lists, non-lists and non-pairs raise the documented error.',
  over=['inputs'], text='every list of up to 5 arbitrary 61-bit integers (as elements or as keys), every list of up to 3 elements of mixed kinds, ill-typed lists',
  why='The merge of equal elements, stability and in-place truncation depend on the order pattern of the input; tests fix a few patterns.',
  files=['src/BipsPl/sort_c.c', 'src/BipsPl/sort.pl', 'src/BipsPl/term_supp.c', 'src/BipsPl/c_supp.c'],
  mech=M(('merge sort', 'src/BipsPl/sort_c.c Merge_Sort'), ('list access', 'src/BipsPl/sort_c.c Pl_Sort_List_1/2, src/BipsPl/c_supp.c')),
  runs=[dict(name='sort', src=['s01.pl', 't02.c'], bounds=dict(n=5, m=3), thorough=dict(n=6, m=4), reach=[0, 1, 2, 3, 4], time=400, domain='lists of n arbitrary integers; lists of m elements among small integers, 2 variables, 4 atoms, 5 floats, compounds')],
  functions=['Pl_Sort_List_1', 'Pl_Sort_List_2', 'Merge_Sort', 'Keysort_Cmp'], outside='longer lists')

P('C01', title='Control constructs give exactly the right solutions in the right order',
  statement="A goal built from conjunction, disjunction, if-then(-else), soft cut, !, \\\\+, call, once, forall, catch and throw yields exactly the solutions of its standard operational meaning, in order, with side effects executed in order and bindings undone between them. A cut prunes precisely the clause or the call/\\\\+/condition it is local to; a ball is caught by the innermost matching active catch with bindings restored. The same holds when the goal is meta-called and when it is the body of a dynamic clause.".replace('\\\\\\\\', '\\\\'),
  over=['inputs', 'histories'], text='every instance of 32 nested control schemes with three holes filled by bindings, tests, effects, cuts, throws, nondeterministic and cutting predicates, from four initial binding states',
  why='The interplay of cut, catch and backtracking is combinatorial; tests exercise single constructs.',
  files=['src/BipsPl/call.pl', 'src/BipsPl/control.pl', 'src/BipsPl/catch.pl', 'src/BipsPl/call_args.pl', 'src/BipsPl/bc_supp.c', 'src/EnginePl/wam_inst.c', 'src/EnginePl/if_no_fd.c'],
  mech=M(('byte-code of bodies', 'src/BipsPl/call.pl, src/BipsPl/bc_supp.c'), ('catch/throw', 'src/BipsPl/catch.pl, src/BipsPl/throw_c.c'), ('choice points', 'src/EnginePl/wam_inst.c Pl_Create_Choice_Point*, Pl_Cut')),
  runs=[dict(name='control', src=['c01.pl', 'c01_lib.pl', 'c01.c'], bounds=dict(lo=0, hi=32), reach=[0], time=400, domain='templates of harness/c01.pl')],
  functions=['Pl_BC_Call_Terminal_Pred_3', 'Pl_Cut', 'Pl_Create_Choice_Point'], outside='deeper nestings, call/N with N > 1, signals')

P('C02', title='Compiled programs compute exactly what their clauses say',
  statement='A program accepted by gplc behaves as its source text: for every query the clauses that unify are tried in textual order (first-argument indexing on integers, atoms, lists, structures, floats and variables never drops, adds or reorders one), head arguments are unified and body arguments built exactly as written whatever the register and environment allocation, and control constructs in the body keep their meaning. The same clauses consulted as dynamic code give the same answers, effects and exceptions.',
  over=['inputs', 'histories'], text='several hundred generated predicates (control schemes, index tables, random heads and bodies) compiled by the tree, called with every argument of a symbolic family, including every 61-bit integer as key',
  why='Code generation, register allocation and switch tables are exercised by tests on a few benchmark programs with one query each.',
  files=['src/Pl2Wam/code_gen.pl', 'src/Pl2Wam/reg_alloc.pl', 'src/Pl2Wam/indexing.pl', 'src/Pl2Wam/first_arg.pl', 'src/Pl2Wam/syn_sugar.pl', 'src/Wam2Ma/wam2ma.c', 'src/Ma2Asm/ma2asm.c', 'src/Ma2Asm/x86_64_any.c', 'src/EnginePl/wam_inst.c', 'src/BipsPl/bc_supp.c', 'src/BipsPl/dynam_supp.c'],
  mech=M(('code generation', 'src/Pl2Wam/code_gen.pl, reg_alloc.pl'), ('indexing', 'src/Pl2Wam/indexing.pl; src/EnginePl/wam_inst.c Pl_Switch_On_*'), ('mapper', 'src/Wam2Ma/wam2ma.c, src/Ma2Asm/x86_64_any.c'), ('WAM instructions', 'src/EnginePl/wam_inst.c')),
  runs=[dict(name='prog', gen='c02_gen.py', compile_property=True, flags={'c02_prog.pl': ['--no-singl-warn'], 'c02_tab.pl': ['--no-singl-warn']}, src=['c02.pl', '@c02_prog.pl', '@c02_tab.pl', 'c01_lib.pl', 'c01.c', 'c02.c', 't01.c'], bounds=dict(nctl=600, ncl=350, deep=0), thorough=dict(nctl=1200, ncl=800, deep=1), reach=[0, 1, 2], time=400, domain='programs of harness/c02_gen.py (fixed seed), queries of harness/c02.pl')],
  functions=['Pl_Switch_On_Integer', 'Pl_Switch_On_Term', 'Pl_Unify_Value', 'Pl_Get_Structure', 'Pl_Allocate'], outside='programs not generated, multifile, modules, other CPUs than x86_64')

P('X02', title='Arithmetic FD constraints keep all solutions and only solutions',
  statement='Posting an arithmetic finite-domain constraint (#=, #\\=, #<, #=<, #>, #>= and their full arc-consistency forms #=#, ...) over FD variables, integers and the functions +, -, *, /, //, rem, **, min, max, dist and quot_rem never removes an assignment that satisfies it, and once its variables are instantiated it succeeds exactly when the arithmetic relation holds on the values, as long as no bound or product of bounds exceeds fd_max_integer (overflows are documented as unchecked). This is independent of the order in which domains, constraint and values are given.',
  over=['inputs', 'histories'], text='43 constraint schemes with symbolic coefficients, variable bounds and probe assignment, in four orders of posting',
  why='Propagation rules have many sign and bound cases; the tests solve a few puzzles with fixed domains.',
  files=['src/BipsFD/fd_math_fd.fd', 'src/BipsFD/fd_math_c.c', 'src/BipsFD/fd_math.pl', 'src/BipsFD/math_supp.c', 'src/BipsFD/oper_supp.c', 'src/EngineFD/fd_inst.c', 'src/EngineFD/fd_range.c', 'src/EngineFD/fd_to_c.h', 'src/Fd2C/code_gen.c'],
  mech=M(('normalisation', 'src/BipsFD/math_supp.c Normalize, Load_Left_Right_Rec'), ('propagators', 'src/BipsFD/fd_math_fd.fd'), ('propagation', 'src/EngineFD/fd_inst.c All_Propagations')),
  runs=[dict(name='arith', src=['x02.pl', 'fd_lib.pl'], bounds=dict(lo=0, hi=34, sym=0, ords=3), thorough=dict(ords=4), reach=[0], time=500, domain='variables in 0..9, coefficients -3..3'),
    dict(name='large', src=['x02.pl', 'fd_lib.pl'], bounds=dict(lo=34, hi=40, sym=0, ords=3), thorough=dict(ords=4), reach=[0], time=300, domain='values over the whole range of FD variables (to 2^28-1), symbolic in linear constraints, min and max, selected for products, quotients, powers and roots'),
    dict(name='sub', src=['x02.pl', 'fd_lib.pl'], bounds=dict(lo=40, hi=43, sym=0, ords=2), thorough=dict(ords=4), reach=[0], time=300, domain='linear sub-expressions (not negative) as arguments of the non-linear functions, variables in 0..4')],
  functions=['Pl_Load_Left_Right', 'Normalize', 'Pl_Fd_Tell_Value'], outside='products and bounds beyond fd_max_integer (documented: overflow is not checked), negative values of non-linear sub-expressions')

P('X03', title='Boolean and reified FD constraints have their truth-table meaning',
  statement='The boolean connectives on FD constraints (#\\, #<=>, #\\<=>, ##, #==>, #\\==>, #/\\, #\\/\\, #\\/, #\\\\/), the reification of arithmetic constraints by 0/1 variables, fd_cardinality/2,3, fd_at_least_one, fd_at_most_one, fd_only_one and fd_reified_in accept an assignment of their variables exactly when the formula is true on the values. This holds whatever was posted first: domains, formula or values.',
  over=['inputs', 'histories'], text='15 formula schemes, every connective and comparison, symbolic constants and probe values, four orders of posting',
  why='A connective is compiled to one of several propagators depending on which operands are already known; tests use few combinations.',
  files=['src/BipsFD/fd_bool.pl', 'src/BipsFD/fd_bool_c.c', 'src/BipsFD/fd_bool_fd.fd', 'src/BipsFD/fd_math_fd.fd', 'src/BipsFD/oper_supp.c', 'src/EngineFD/fd_inst.c'],
  mech=M(('simplification', 'src/BipsFD/fd_bool_c.c Simplify, Load_Bool_Into_Word'), ('propagators', 'src/BipsFD/fd_bool_fd.fd'), ('cardinality', 'src/BipsFD/fd_bool.pl')),
  runs=[dict(name='bool', src=['x03.pl', 'fd_lib.pl'], bounds=dict(lo=0, hi=15), reach=list(range(15)), time=400, domain='formulas of depth 2 over 0/1 variables and comparisons on 0..7')],
  functions=['Simplify', 'Load_Bool_Into_Word', 'Pl_Fd_Bool_Meta_3'], outside='deeper formulas, overflow')

P('X01', title='The domain of an FD variable is exactly what was told to it',
  statement='After any sequence of fd_domain/2,3, #\\=, #>=, #=< and unifications with other FD variables, an FD variable accepts exactly the values satisfying all of them; it becomes an integer when one value is left, and the operation fails when none is. fd_min, fd_max, fd_size and fd_dom describe that set, unification with an integer succeeds only for a value of it, and backtracking or an exception restores the earlier domain.',
  over=['inputs', 'histories'], text='sequences of three operations from seven kinds with symbolic bounds around the word boundaries of the bit-vector representation, a symbolic probe value, and integers of the full 61-bit range',
  why='Interval and bit-vector representations are switched silently; wrong masks show only at particular values.',
  files=['src/EngineFD/fd_range.c', 'src/EngineFD/fd_inst.c', 'src/EngineFD/fd_unify.fd', 'src/BipsFD/fd_values.pl', 'src/BipsFD/fd_values_c.c', 'src/BipsFD/fd_infos.pl', 'src/BipsFD/fd_infos_c.c', 'src/EnginePl/if_no_fd.h'],
  mech=M(('ranges', 'src/EngineFD/fd_range.c'), ('telling a domain', 'src/EngineFD/fd_inst.c Pl_Fd_Tell_*, Update_Range_From_*'), ('unification', 'src/EngineFD/fd_inst.c Pl_Fd_Unify_With_*')),
  runs=[dict(name='dom', src=['x01.pl'], bounds=dict(third=2), thorough=dict(third=3), reach=[0, 1, 2, 3, 4, 10], time=400, domain='values within 0..7 of 0, 60 and 120; integers -2^59..2^59-1')],
  functions=['Pl_Range_Inter', 'Pl_Range_Union', 'Pl_Fd_Tell_Range_Range', 'Pl_Fd_Unify_With_Fd_Var0'], outside='values above fd_vector_max in sparse domains (documented as lost with a warning)')

P('X04', title='Symbolic FD constraints accept exactly the assignments they describe',
  statement='fd_all_different, fd_element, fd_element_var, fd_atmost, fd_atleast, fd_exactly, fd_relation, fd_relationc, fd_prime and fd_not_prime accept an assignment of their variables exactly when it satisfies their definition. No solution is lost by propagation, whatever the order in which domains, the constraint and values are given.',
  over=['inputs', 'histories'], text='18 schemes with symbolic constants and probe values, four orders of posting',
  why='Each constraint maintains its own incremental state; tests solve puzzles with it but do not check every assignment.',
  files=['src/BipsFD/fd_symbolic.pl', 'src/BipsFD/fd_symbolic_c.c', 'src/BipsFD/fd_symbolic_fd.fd', 'src/BipsFD/fd_prime.pl', 'src/BipsFD/fd_prime_c.c', 'src/BipsFD/fd_prime_fd.fd'],
  mech=M(('propagators', 'src/BipsFD/fd_symbolic_c.c, fd_symbolic_fd.fd'), ('prime table', 'src/BipsFD/fd_prime_c.c')),
  runs=[dict(name='symb', src=['x04.pl', 'fd_lib.pl'], bounds=dict(lo=0, hi=18), reach=list(range(18)), time=400, domain='lists of up to 5 elements, values 0..6, primes up to 120; elements and constants over the whole integer range')],
  functions=['Pl_All_Different', 'Pl_Fd_Element_I'], outside='longer lists, values above fd_vector_max')

P('X05', title='Labelling enumerates every solution once; optimisation finds the optimum',
  statement='fd_labeling/1,2 instantiates its variables to each assignment allowed by the constraints exactly once, for every choice of variable and value heuristics, in ascending (min) or descending (max) order when asked for in standard variable order; backtracking out of it restores all domains. fd_minimize and fd_maximize succeed exactly when a solution exists and return one whose cost no other solution improves.',
  over=['inputs', 'histories'], text='six constraint stores with a parameter, 8 variable and 6 value heuristics, reordering on and off, three cost functions',
  why='Heuristics change the search, and only a comparison with the solution set shows a lost or repeated branch.',
  files=['src/BipsFD/fd_values.pl', 'src/BipsFD/fd_values_c.c', 'src/BipsFD/fd_optim.pl'],
  mech=M(('value choice', 'src/BipsFD/fd_values_c.c Pl_Indomain_*'), ('variable choice', 'src/BipsFD/fd_values_c.c Pl_Fd_Sel_Array_Pick_Var_2'), ('branch and bound', 'src/BipsFD/fd_optim.pl')),
  runs=[dict(name='lab', src=['x05.pl'], bounds=dict(), reach=[0, 1, 2, 3, 5, 4], time=400, domain='2 or 3 variables in 0..3, up to 68 variables in 0..1')],
  functions=['Pl_Indomain_Middle_2', 'Pl_Fd_Sel_Array_Pick_Var_2'], outside='the order chosen by heuristics other than min and max')

P('D01', title='The dynamic database is an ordered list of clauses with the logical update view',
  statement='After any sequence of asserta, assertz, retract, retractall and abolish, calls and clause/2 yield exactly the clauses present, in order, whatever the first argument and whatever was reclaimed in between; stored terms are exact copies with fresh variables. A call, clause/2 or retract/1 that is under way sees the clauses of its start, whatever is added or removed meanwhile. Updates survive backtracking and exceptions, and an operation that raises its documented error changes nothing.',
  over=['inputs', 'histories'], text='histories of two operations (nine kinds, nine key kinds including arbitrary 61-bit integers) on six initial programs; iterations by call, clause/2 and retract/1 with modifications between solutions; with and without reclamation of erased clauses',
  why='Index chains, erase stamps and the clause garbage collector interact over histories; tests do a few assert/retract sequences and never trigger the collector.',
  files=['src/BipsPl/dynam_supp.c', 'src/BipsPl/assert_c.c', 'src/BipsPl/assert.pl', 'src/BipsPl/bc_supp.c', 'src/EnginePl/hash_tbl.c'],
  mech=M(('clause chains and scans', 'src/BipsPl/dynam_supp.c'), ('collector', 'src/BipsPl/dynam_supp.c GC_Clause'), ('built-ins', 'src/BipsPl/assert_c.c')),
  runs=[dict(name='db', src=['d01.pl', 't02.c', 't01.c'], bounds=dict(ops=2, keys=3, inits=6, depth=1), thorough=dict(ops=2, keys=9, depth=2), reach=[0, 1, 2, 3, 4], time=400, domain='see text')],
  functions=['Pl_Add_Dynamic_Clause', 'Pl_Delete_Dynamic_Clause', 'Scan_Dynamic_Pred_Next', 'GC_Clause', 'Pl_Update_Dynamic_Pred'], outside='longer histories, multifile predicates, consult, modules')

P('F01', title='findall, bagof and setof collect exactly the solutions',
  statement='findall/3,4 return one fresh copy of the template for each solution of the goal, in order, and bind nothing else. bagof/3 and setof/3 give, on backtracking, one group for each distinct instance (up to renaming) of the free variables not quantified by ^, in ascending order of ground witnesses, with the instances in solution order or sorted without duplicates; they fail without solution. This holds for nested searches and after searches abandoned by an exception, and ill-typed arguments raise the documented error.',
  over=['inputs', 'histories'], text='goals with up to three solutions whose witnesses and values are symbolic integers, atoms, variables and compound terms; quantified and free variables; two levels of nesting with an exception at any solution',
  why='Grouping depends on the order and sharing of the solutions; interrupted searches leave state behind that no test looks at.',
  files=['src/BipsPl/all_solut.pl', 'src/BipsPl/all_solut_c.c', 'src/BipsPl/sort_c.c', 'src/BipsPl/term_supp.c'],
  mech=M(('solution stack', 'src/BipsPl/all_solut_c.c Pl_Store_Solution, Pl_Recover_Solutions_4'), ('free variables', 'src/BipsPl/all_solut_c.c Pl_Free_Variables_4'), ('grouping', 'src/BipsPl/all_solut_c.c Group, Handle_Key_Variables')),
  runs=[dict(name='all', src=['f01.pl', 't02.c', 't01.c'], bounds=dict(n=3, m=4), thorough=dict(n=4, m=5), reach=[0, 1, 2, 3, 4, 5], time=400, domain='see text')],
  functions=['Pl_Free_Variables_4', 'Pl_Recover_Solutions_4', 'Pl_Group_Solutions_3'], outside='more solutions, more than 255 free variables')

P('L01', title='List predicates have exactly the solutions of their definitions',
  statement='append, member, memberchk, reverse, delete, select, subtract, permutation, prefix, suffix, sublist, last, flatten, length, nth, nth0, nth1, max_list, min_list, sum_list and maplist give exactly the solutions of their defining clauses, in order, for instantiated, partial and ill-formed lists in every mode. Bindings of attempts that fail leave no trace. Ill-typed lengths raise the documented errors.',
  over=['inputs'], text='lists of up to three elements (arbitrary 61-bit integers, shared variables, structures) with proper, variable and ill-formed tails, alone and in pairs; element numbers and lengths over the whole integer range',
  why='append, member, memberchk, reverse, length and nth are hand-written C with their own choice points and read/write modes; tests call them on complete lists.',
  files=['src/BipsPl/list.pl', 'src/BipsPl/list_c.c', 'src/EnginePl/wam_inst.c'],
  mech=M(('C list predicates', 'src/BipsPl/list_c.c'), ('Prolog list predicates', 'src/BipsPl/list.pl')),
  runs=[dict(name='list', src=['l01.pl', 't02.c', 't01.c'], bounds=dict(n=3, m=2), thorough=dict(n=4, m=3), reach=[0, 1, 2, 3, 4, 5], time=400, domain='see text; for partial lists the first three solutions')],
  functions=['Pl_Append_3', 'Pl_Append_Alt_0', 'Pl_Member_2', 'Pl_Memberchk_2', 'Pl_Length_2', 'Pl_Nth0_3', 'Pl_Reverse_2'], outside='longer lists, max_list/min_list of non-numbers')

P('K01', title='Atoms are faithful sequences of characters',
  statement='sub_atom/5, atom_concat/3, atom_length/2, char_code/2, lower_upper/2, atom_chars/2 and atom_codes/2 relate atoms and their character sequences exactly: every solution once, in order, in every mode, also when arguments share variables, for positions and lengths over the whole integer range and for long atoms. Two atoms are identical exactly when their names are. Ill-typed arguments raise a documented error and bind nothing.',
  over=['inputs'], text='names of up to four characters; positions, lengths and codes over the whole 61-bit range; variable, shared, ill-typed arguments in every combination; lists with partial and ill-formed tails and elements; names around 2^16 characters',
  why='The C code computes offsets from its arguments: an offset outside the name reads other memory, which tests with sensible offsets never do.',
  files=['src/BipsPl/atom_c.c', 'src/BipsPl/atom.pl', 'src/EnginePl/atom.c', 'src/BipsPl/c_supp.c'],
  mech=M(('sub_atom, atom_concat', 'src/BipsPl/atom_c.c'), ('atom table', 'src/EnginePl/atom.c Pl_Create_Atom'), ('argument checks', 'src/BipsPl/c_supp.c')),
  runs=[dict(name='atom', src=['k01.pl', 'ref_lib.pl', 'k01.c', 't02.c', 't01.c'], bounds={}, reach=[0, 1, 2, 3, 4, 5, 6], time=400, domain='see text')],
  functions=['Pl_Sub_Atom_5', 'Pl_Sub_Atom_Alt_0', 'Pl_Atom_Concat_3', 'Pl_Create_Atom'], outside='longer names over larger alphabets, current_atom/1')

P('R01', title='Numbers are read and written exactly as their syntax says',
  statement='A sequence of characters is read as a number exactly when it is optional layout, an optional minus sign and a numeric constant of the documented syntax (decimal, binary, octal, hexadecimal, character code with every escape sequence, float) with nothing after it, and its value is exact. Integers outside the range of integers and every other sequence raise a syntax error. A written number reads back as the same number.',
  over=['inputs'], text='all sequences of up to two arbitrary characters; two arbitrary characters after each of fourteen prefixes; all sequences of five characters over eleven significant ones; literals around every limit with two arbitrary digits; escape sequences longer than a machine word',
  why='The scanner looks ahead, pushes back and converts in several radixes with machine arithmetic; tests read a few literals.',
  files=['src/BipsPl/lexer_supp.c', 'src/BipsPl/parser_supp.c', 'src/BipsPl/atom_c.c', 'src/BipsPl/stream_supp.c'],
  mech=M(('scanner', 'src/BipsPl/lexer_supp.c Lexer_Number, Lexer_Quoted_Char'), ('number reader', 'src/BipsPl/parser_supp.c Pl_Read_Number')),
  runs=[dict(name='num', src=['r01.pl', 'r01.c', 't02.c', 't01.c'], bounds=dict(any=4, suf=3, alen=6, dig=2), thorough=dict(any=5, suf=4, alen=7, dig=3), reach=[0, 1, 2, 3, 4, 5], time=400, domain='see text')],
  functions=['Pl_Read_Number', 'Pl_Lexer_Token', 'Lexer_Number', 'Lexer_Quoted_Char'], outside='longer arbitrary sequences; the value of floats with many digits (libc); char_conversion/2')

P('R02', title='A term written with quoting reads back as the same term',
  statement='The text writeq/1, write_canonical/1 and write_term/2 with ignore_ops produce for a finite term is read back as the same term up to renaming of variables, whatever its atoms, numbers and structure and whatever operators are defined. Any text that the reader accepts denotes a term with this property, and any other text raises a syntax error.',
  over=['inputs'], text='terms with up to three nested operators of every type and priority class (user-defined prefix, infix, postfix, both at once), operands being numbers, operators as atoms, lists, braces; atoms of one arbitrary or two significant characters in seven contexts; texts of up to four significant characters',
  why='Whether parentheses, spaces or quotes are needed depends on neighbouring tokens, operator types and priorities in combinations no test list covers.',
  files=['src/BipsPl/write_supp.c', 'src/BipsPl/parser_supp.c', 'src/BipsPl/lexer_supp.c', 'src/BipsPl/oper_c.c', 'src/EnginePl/oper.c'],
  mech=M(('writer', 'src/BipsPl/write_supp.c Show_Term, Show_Structure'), ('reader', 'src/BipsPl/parser_supp.c Parse_Term'), ('operators', 'src/EnginePl/oper.c')),
  runs=[dict(name='rt', src=['r02.pl', 't02.c', 't01.c'], bounds=dict(chars=3, text=4), thorough=dict(chars=4, text=5), reach=[0, 1, 2, 3, 4], time=400, domain='see text')],
  functions=['Show_Term', 'Show_Structure', 'Parse_Term', 'Pl_Lexer_Token', 'Pl_Lookup_Oper'], outside='portrayed and numbered variables, floats beyond a sample, deeper terms, character conversion')

P('I01', title='Streams deliver and store exactly the characters, and report exact positions',
  statement='Whatever the sequence of reading, peeking, pushing back and repositioning operations on a text, binary or term stream, each delivers the character at the position it should, end of file is reported as eof_action and end_of_stream say, and the position, character, line and column counts are exact. What is written to a stream, also in append mode, after repositioning and through mirrors, is what the file then contains. Aliases, current streams and stream properties follow every open, close and set operation, and a use that the mode, type or state of the stream forbids raises the documented error and changes nothing.',
  over=['inputs', 'histories'], text='files of up to two arbitrary bytes with every sequence of operations within the bound; offsets, lines and columns around the ends; end-of-file actions changed at any moment; histories of opening, aliasing, redirecting and closing',
  why='Push-back buffers, peeked end of file, counters and repositioning interact over histories; tests read files from start to end.',
  files=['src/BipsPl/stream_supp.c', 'src/BipsPl/stream_c.c', 'src/BipsPl/stream.pl', 'src/BipsPl/char_io_c.c', 'src/BipsPl/read_c.c'],
  mech=M(('push-back and counters', 'src/BipsPl/stream_supp.c Pl_Stream_Getc, Pl_Stream_Ungetc, Pl_Stream_Peekc, Update_Counters'), ('positions', 'src/BipsPl/stream_supp.c Pl_Stream_Get_Position, Pl_Stream_Set_Position, Pl_Stream_Set_Position_LC'), ('stream table', 'src/BipsPl/stream_c.c, src/BipsPl/stream_supp.c Pl_Delete_Stream')),
  runs=[dict(name='io', src=['i01.pl', 'i01.c', 't02.c', 't01.c'], bounds=dict(bytes=2, n=3, out=3, hist=3, lines=0), thorough=dict(bytes=2, n=4, out=4, hist=4, lines=0), reach=[0, 1, 2, 3, 4, 5, 6, 7, 8], time=400, domain='see text')],
  functions=['Pl_Stream_Getc', 'Pl_Stream_Peekc', 'Pl_Stream_Ungetc', 'Pl_Stream_Get_Position', 'Pl_Stream_Set_Position', 'Pl_Stream_Set_Position_LC', 'Pl_Open_3'], outside='terminals, line editing, sockets and pipes, disk errors, buffering modes')

P('G01', title='Global variables hold exactly what was assigned to them',
  statement='g_read/2 returns the term last assigned by g_assign/2 or g_assignb/2 (as a copy), or linked by g_link/2 (the term itself), also for elements of fixed, extended and automatic arrays, sub-terms designated by argument selectors and indirect indexes. Backtracking and exceptions undo exactly the g_assignb/2 and g_link/2 assignments made since, and never a g_assign/2. g_inc, g_dec and the bit operations act exactly on the integers of the whole range, and an operation that raises its documented error changes nothing.',
  over=['inputs', 'histories'], text='histories of assignments, links, increments, element accesses and array definitions mixed with choice points, exceptions and cuts, integers over the whole range, indexes and selectors around the bounds',
  why='Undo records, copied arrays and expansions interact over histories; tests only read a value back.',
  files=['src/BipsPl/g_var_inl_c.c', 'src/BipsPl/g_var_inl.pl', 'src/EnginePl/wam_inst.c'],
  mech=M(('assignment and arrays', 'src/BipsPl/g_var_inl_c.c G_Assign_Element, G_Assign_Array, G_Alloc_Array'), ('undo records', 'src/BipsPl/g_var_inl_c.c G_Trail_For_Backtrack, G_Untrail'), ('designators', 'src/BipsPl/g_var_inl_c.c Get_Target_From_Gvar, Get_Target_From_Selector')),
  runs=[dict(name='gvar', src=['g01.pl', 't02.c', 't01.c'], bounds=dict(ops=3, aops=3), thorough=dict(ops=4, aops=4), reach=[0, 1, 2, 3, 4, 5, 6], time=400, domain='see text')],
  functions=['G_Assign', 'G_Assign_Element', 'G_Assign_Array', 'G_Alloc_Array', 'Get_Target_From_Gvar', 'G_Untrail', 'G_Read_Element'], outside='arrays larger than the bounds, exhaustion of memory, the effect of g_array_extend by g_assign/2 on earlier backtrackable assignments of the same variable is taken from the implementation (they stay undoable)')


P('Y01', title='A grammar rule accepts exactly what its body describes',
  statement='For a grammar body built from terminals, non-terminals, {}//1, !, (,), ;, |, ->, *->, \\+, call//N and variables, phrase/2,3 yields exactly the derivations of its standard meaning, in order, with the bindings and the rest of the list of each one. The same holds for the clause expand_term/2 produces for a rule, also with a pushback list, whether the rest is known before the call or not (a cut combined with [] or a pushback list excepted). term_expansion/2 takes precedence, other terms are left unchanged, and ill-formed rules and bodies raise the documented error.',
  over=['inputs'], text='every body of depth up to two over 18 constructions, lists of up to three elements with symbolic integers, unknown and known rests, pushback lists',
  why='Terminals are unified at translation time and variables merged when nothing comes between; where this is wrong depends on what surrounds them.',
  files=['src/BipsPl/expand_c.c', 'src/BipsPl/expand.pl'],
  mech=M(('translation', 'src/BipsPl/expand_c.c Dcg_Head, Dcg_Body, Dcg_Body_On_Stack, Dcg_Term_List_On_Stack'), ('phrase', 'src/BipsPl/expand.pl')),
  runs=[dict(name='dcg', src=['y01.pl'], bounds=dict(d=1, sd=0), thorough=dict(d=2, sd=0), reach=[0, 1, 2, 3, 4], time=400, domain='see text')],
  functions=['Pl_Dcg_Trans_Rule_2', 'Pl_Dcg_Trans_Body_4', 'Dcg_Body', 'Dcg_Body_On_Stack', 'Dcg_Term_List_On_Stack'], outside='strings with the double_quotes flag, left-recursive rules')

