TESTS = ('The suite runs a few hundred fixed goals and example programs; ')

P('C01', 'Instantiation and type errors are raised as documented',
  'For every predicate of the reference manual and every documented instantiation, uninstantiation or type error condition on one of its arguments (or on an element of a list argument), '
  'a call whose argument meets the condition, the other arguments being valid, raises that error with the offending term as culprit. '
  'It never succeeds, fails silently or raises another error.',
  ['inputs'], 'all documented instantiation and type error conditions on one argument and all argument values that meet them, the other arguments being valid',
  TESTS + 'they sample a value or two for a few predicates, not all value kinds for all 250 documented predicates.',
  ['doc/pl-bips.tex', 'doc/fd-cstr.tex', 'src/BipsPl/error_supp.c', 'src/BipsPl/c_supp.c', 'src/BipsPl/atom.pl', 'src/BipsPl/atom_c.c', 'src/BipsPl/stream.pl', 'src/BipsFD/fd_values.pl'],
  [('argument readers and checkers', 'src/BipsPl/c_supp.c'), ('error constructors', 'src/BipsPl/error_supp.c'), ('library clauses', 'src/BipsPl/*.pl, src/BipsFD/*.pl')],
  'abstract interpretation of library clauses and C IR against the manual\'s error tables',
  'For each documented condition that the analysis decides (counted in the evidence), every path of the current sources from the abstract call is followed: none succeeds or fails, the documented error is raised, about the offending term. '
  'Conditions that need values the abstraction does not carry are left undecided and not claimed. A list element is analysed after a bounded valid prefix.',
  observe=['catch/3: the error term'])

P('C02', 'Domain and representation errors are raised as documented',
  'For every predicate of the reference manual and every documented domain, representation or evaluation error condition on one of its arguments (or on an element of a list argument), '
  'a call whose argument meets the condition, the other arguments being valid, raises that error, a domain error having the offending term as culprit. It never succeeds or fails silently.',
  ['inputs'], 'all documented domain and representation error conditions on one argument and all values meeting them',
  TESTS + 'out-of-domain values are sampled for few predicates and options.',
  ['doc/pl-bips.tex', 'src/BipsPl/c_supp.c', 'src/BipsPl/error_supp.c', 'src/BipsPl/atom_c.c', 'src/BipsPl/stream.pl', 'src/BipsPl/random_c.c'],
  [('value readers', 'src/BipsPl/c_supp.c'), ('option readers', 'src/BipsPl/*.pl')],
  'abstract interpretation of library clauses and C IR against the manual\'s error tables',
  'As C01, for domain, representation and evaluation errors.',
  observe=['catch/3: the error term'])

P('C04', 'The context of an error names the called built-in',
  'An error raised for an invalid argument of a built-in predicate carries in its context the name and arity of that built-in, not of an auxiliary predicate or of a previously called one. '
  'After a built-in has returned normally, its name is not used for later errors of others.',
  ['inputs', 'programs'], 'all documented error conditions of all documented predicates, on every path that raises the error',
  TESTS + 'context terms are compared for a handful of ISO predicates only.',
  ['src/BipsPl/error_supp.c', 'src/BipsPl/pl_error.pl', 'src/BipsPl/term_inl_c.c', 'src/BipsPl/g_var_inl_c.c', 'src/BipsPl/arith_inl_c.c'],
  [('name recording', 'src/BipsPl/error_supp.c'), ('set_bip_name in clauses', 'src/BipsPl/*.pl, src/BipsFD/*.pl')],
  'abstract interpretation with a tracked error context; interprocedural typestate of the name record',
  'Every error path found for the documented conditions was checked for the recorded name; every clause recording a constant name and every C entry point recording its own was checked.',
  observe=['catch/3: error(_, Context)'])

P('C03', 'A built-in fails when one of its results does not unify',
  'A built-in predicate implemented in C succeeds only if each of its results unifies with the argument given for it. A failed unification of a result is never ignored: '
  'the call fails (or tries another solution), whatever the other results are; the clause that calls the C function tests its answer, passes all its arguments, and none of them is left unused.',
  ['inputs'], 'every unification of a result on every path of every C built-in, and every clause that calls one',
  TESTS + 'results are nearly always requested through fresh variables, with which an ignored failure is invisible.',
  ['src/BipsPl/c_supp.c', 'src/BipsPl/atom_c.c', 'src/BipsPl/stat_c.c', 'src/BipsPl/os_interf_c.c', 'src/BipsPl/const_io.pl', 'src/EnginePl/wam_inst.c'],
  [('result unification', 'src/BipsPl/c_supp.c, src/EnginePl/wam_inst.c'), ('foreign calls in clauses', 'src/BipsPl/*.pl, src/BipsFD/*.pl')],
  'constant-driven path analysis of return values over C IR, and a lint of foreign calls in library clauses',
  'Every path after a failed unification was followed to the returned value; results that are discarded are those recorded as harmless in data/ignored-unify.json (unifications of a fresh variable).',
  observe=['success or failure of a goal with a bound output argument'])

P('C05', 'Backtracking resumes from the state saved in the choice point',
  'When a computation fails, the last choice point gives back the continuation, environment, heap, trail and constraint stack pointers and the argument registers exactly as they were when it was created, '
  'and removing it reinstates the previous one. A nondeterministic built-in implemented in C resumes from the state it saved: each solution once, the state advanced for the next one, '
  'the choice point removed with the last solution and only then, nothing read or written outside its slots.',
  ['inputs', 'histories'], 'every choice point operation of the engine and every nondeterministic C built-in, on all paths of its first call and of its retry function',
  TESTS + 'a slot that is not restored shows only when the values saved and current differ, e.g. after several nested alternatives.',
  ['src/EnginePl/wam_inst.c', 'src/EnginePl/wam_inst.h', 'src/BipsPl/atom_c.c', 'src/BipsPl/pred_c.c', 'src/BipsPl/stream_c.c', 'src/BipsPl/flag_c.c', 'src/BipsPl/oper_c.c', 'src/BipsPl/throw_c.c'],
  [('choice point frames', 'src/EnginePl/wam_inst.c'), ('retry functions Pl_*_Alt_0', 'src/BipsPl/*_c.c')],
  'value numbering along the acyclic paths of the engine and built-in functions: slot/register agreement and typestate of the choice point',
  'Creation, resumption and removal are compared slot by slot in their generic and specialised versions; for each nondeterministic built-in the slots written at creation, read and rewritten at retry were compared. '
  'That the state stored means the right next solution is decided only as far as it is recomputed by the same helper or changed at all.',
  observe=['solutions of a goal on backtracking'])

P('C06', 'Every binding is undone on backtracking',
  'When a goal fails or is retried, everything it changed in existing terms is undone: bindings of variables, setarg/3 (and setarg/4 with undo), domains, constraint lists and instantiation of FD variables, '
  'and global variables set by g_assignb/2 or g_link/2 get back the content they had when the choice point was created. '
  'A change is saved on the trail before it is made, unless the cell is newer than the choice point.',
  ['inputs', 'histories'], 'every store that changes a term cell, an FD variable or a backtrackable global variable, on every path to it, and every kind of trail entry',
  TESTS + 'a missing trail entry shows only if the cell is older than the choice point and the alternative depends on it.',
  ['src/EnginePl/wam_inst.c', 'src/EnginePl/wam_inst.h', 'src/EnginePl/unify.c', 'src/EngineFD/fd_inst.c', 'src/BipsFD/fd_values_c.c', 'src/BipsPl/term_inl_c.c', 'src/BipsPl/g_var_inl_c.c', 'src/BipsPl/pretty_c.c'],
  [('binding and trailing macros', 'src/EnginePl/wam_inst.h'), ('trailing of FD variables', 'src/EngineFD/fd_inst.c'), ('undoable global variables', 'src/BipsPl/g_var_inl_c.c')],
  'must-dataflow over the C IR: trail-before-store obligations, and agreement of pushed and popped trail entries',
  'Every store in term memory or in an FD variable found in the engine and the built-ins carries an obligation that was discharged on all paths. Functions that mark terms temporarily and restore them themselves '
  '(copy_term, acyclic_term, in-place sort, ...) are listed in the check and not analysed.',
  observe=['solutions of a goal on backtracking'])

P('C07', 'A change of an FD domain wakes the constraints that depend on it',
  'Whenever the domain of an FD variable is reduced, each constraint waiting on what changed (its minimum, its maximum, either bound, its domain or its value) is scheduled and executed before the call that caused the change succeeds, '
  'and it sees the new minimum, maximum and size. An empty domain fails. A domain that did not change schedules nothing, and no scheduled constraint is lost or executed in a stale queue.',
  ['inputs', 'histories'], 'every change of the domain of an FD variable in the solver, on every path to it, and the queue of scheduled constraints',
  TESTS + 'a lost wake-up shows only if no other event schedules the same constraint, i.e. with particular chains of constraints.',
  ['src/EngineFD/fd_inst.c', 'src/EngineFD/fd_inst.h', 'src/EngineFD/fd_range.c', 'src/EngineFD/fd_hook_range.h', 'src/BipsFD/fd_values_c.c', 'src/BipsFD/fd_bool_c.c'],
  [('tell operations and propagation queue', 'src/EngineFD/fd_inst.c'), ('layout of FD variables', 'src/EngineFD/fd_inst.h')],
  'value numbering along the paths of the tell operations: agreement of the fields changed with the events scheduled; typestate of the propagation queue',
  'Every function that changes a range or schedules an event was analysed on all its acyclic paths, loops by segments; the constraints themselves (what they compute when woken) are not part of this property.',
  observe=['fd_min/2, fd_max/2, fd_dom/2 after posting constraints'])

P('C08', 'FD constraint rules keep every solution and reject every non-solution',
  'For every arithmetic, reified and boolean constraint of the FD solver (defined in fd_math_fd.fd and fd_bool_fd.fd): whatever the domains of its variables, the rules of the constraint never remove a value that belongs to a solution of the relation the constraint stands for '
  'and never divide by zero; and when all its variables are known, a combination that is not a solution is rejected, whichever case of its switch was selected before.',
  ['inputs', 'histories'], 'all domains and parameters, for every rule of every constraint, and all orders in which the cases of a switch may be selected (integer overflow excepted)',
  TESTS + 'a rule that is wrong only for particular domains (sparse, with zero, a case selected early) is not met by the sample constraints.',
  ['src/BipsFD/fd_math_fd.fd', 'src/BipsFD/fd_bool_fd.fd', 'src/BipsFD/fd_values_fd.fd', 'src/EngineFD/fd_to_c.h', 'src/EngineFD/fd_inst.c', 'src/EngineFD/fd_range.c', 'src/BipsFD/oper_supp.c', 'src/BipsFD/fd_symbolic_c.c', 'src/BipsFD/fd_prime_c.c', 'src/BipsFD/fd_math_c.c', 'src/BipsFD/fd_bool_c.c', 'src/BipsFD/math_supp.c', 'src/BipsFD/fd_math.pl', 'src/BipsFD/fd_bool.pl'],
  [('constraint definitions', 'src/BipsFD/fd_math_fd.fd, src/BipsFD/fd_bool_fd.fd'), ('division of bounds', 'src/EngineFD/fd_to_c.h')],
  'certificates (polynomials with non-negative coefficients) over the syntax tree of the constraint definitions, truth tables for 0/1 variables; relational abstract interpretation of the C functions they call against reference functions',
  'Every rule and every state of every constraint of the two files is certified on the current tree, and the C functions the rules and the generated code rely on (instruction macros, tell operations, ranges, powers and roots, '
  'symbolic constraints) are each proved equivalent to a reference function. The predicates that post constraints (fd_math.pl, fd_bool.pl, fd_math_c.c, fd_bool_c.c, math_supp.c) are compared with references; the translation of .fd files by fd2c is C28; a rule that prunes less than it could is not a violation.',
  observe=['solutions of a constraint found by fd_labeling/1; fd_dom/2'])

P('C09', 'Every evaluable functor gives its documented value or error',
  'For operands of every type and value, each evaluable functor of is/2 (interpreted, compiled in-line, and in its integer version for --fast-math) returns the value and type documented, or raises the documented error: '
  'type_error(integer/float), evaluation_error(zero_divisor, undefined, int_overflow, float_overflow), domain_error(not_less_than_zero); no integer outside min_integer..max_integer, NaN or infinity is ever returned. '
  'Arithmetic comparisons agree with the order of the values; expressions are evaluated argument by argument; succ/2 relates an integer and its successor.',
  ['inputs'], 'all integers and floats, in all combinations of operand types, for all registered functors and comparison predicates',
  TESTS + 'an overflow check, a rounding or a sign that is wrong only near the limits of the integers or for one combination of operand types is not among the sample values.',
  ['src/BipsPl/arith_inl_c.c', 'src/BipsPl/arith_inl.pl', 'src/Pl2Wam/code_gen.pl'],
  [('evaluable functors', 'src/BipsPl/arith_inl_c.c'), ('functors inlined by the compiler', 'src/Pl2Wam/code_gen.pl')],
  'path-sensitive abstract interpretation of the C IR (linear inequalities, uninterpreted float operations), compared with a specification table case by case; loop invariants for gcd/2 and ^/2',
  'Every registered functor, every inlined one and every comparison is compared with the table for each combination of operand types. The libm functions and the IEEE operations are taken as correct.',
  observe=['X is Expr; Expr1 < Expr2; succ/2'])

P('C10', 'FD domain operations compute exactly the sets they name',
  'Each operation on FD domains does what its name says for every domain, interval or sparse (bit-vector): union, intersection, difference, complement, sums and products by a value, membership, next, previous and ith value, size, '
  'conversion from and to Prolog lists; setting, removing, intersecting the domain of a variable (fd_domain/2,3, #= with an integer, fd_relation, fd_element, fd_prime, ...); the queries fd_min/2, fd_max/2, fd_size/2, fd_dom/2, fd_has_extra_cstr/1; '
  'and fd_labeling/2 tries the variables and the values in the order its options state, each value of the domain once, none outside it.',
  ['inputs', 'histories'], 'all domains (bounds, vectors of any content, extra_cstr flag) and all variables, for every function of the domain library, the FD instance and the labeling',
  TESTS + 'a word or bit boundary, an empty intersection, a sparse domain with extra_cstr or a variable ground between two choices is met by particular domains only.',
  ['src/EngineFD/fd_range.c', 'src/EngineFD/fd_inst.c', 'src/EngineFD/fd_to_c.h', 'src/BipsFD/fd_infos_c.c', 'src/BipsFD/fd_values_c.c', 'src/BipsFD/fd_symbolic_c.c', 'src/BipsFD/fd_prime_c.c', 'src/BipsFD/oper_supp.c'],
  [('range operations', 'src/EngineFD/fd_range.c'), ('domains of variables', 'src/EngineFD/fd_inst.c'), ('labeling', 'src/BipsFD/fd_values_c.c')],
  'relational abstract interpretation of the C IR: each function against a reference function (same paths, calls, memory and result for all inputs), loops by matched invariants',
  'Every function listed in the evidence is proved equivalent, for all inputs, to a reference function written from its documentation (spec/*.c); the references themselves are reviewed, not verified, and pointers of different arguments are taken not to alias unless both sides treat them alike.',
  observe=['fd_dom/2, fd_size/2, fd_min/2, fd_max/2; order and set of the answers of fd_labeling/2'])

P('C11', 'Unification and the instructions of compiled code do what the WAM defines',
  'The instructions executed by compiled clauses (get, put, unify, switch, allocate, cut, choice points, foreign-call structures) and unification (with and without occurs check) do on every argument, of every type and state of instantiation, '
  'what the WAM defines: the same bindings, the same cells built on the heap, the same clause selected, failure exactly when the terms do not unify, and choice points, environments and cuts that restore the state they name.',
  ['inputs', 'histories'], 'all terms (type, dereference chains, local or global variables, FD variables), modes and stack states, for every instruction of the engine',
  TESTS + 'an instruction that is wrong for one type of argument, in write mode, or for a variable of an older environment needs a clause compiled to that instruction and called in that state.',
  ['src/EnginePl/wam_inst.c', 'src/EnginePl/wam_inst.h', 'src/EnginePl/unify.c', 'src/EnginePl/if_no_fd.c'],
  [('instructions', 'src/EnginePl/wam_inst.c'), ('macros for terms, frames and trail', 'src/EnginePl/wam_inst.h'), ('unification', 'src/EnginePl/unify.c')],
  'relational abstract interpretation of the C IR: each instruction against a reference function (same paths, calls, memory and result for all inputs), loops by matched invariants',
  'All functions of wam_inst.c (with unify.c) were proved equivalent, for all inputs, to reference functions (spec/wam_inst_ref.c) that state the term representation and frame layout themselves; '
  'the references are reviewed, not verified; hashing of atoms and the assembly code that calls the instructions are outside.',
  observe=['T1 = T2, unify_with_occurs_check/2, and the answers of compiled clauses'])

P('C12', 'No term refers to the local stack or holds a detached FD variable',
  'A term built or changed by a C built-in, by the solver or through the C interface never contains a reference to a variable of the local stack (whose environment may disappear before the term does) '
  'nor a copy of the cell of an FD variable (which would no longer be the variable that is constrained): such a word is first globalised, or replaced by a reference to the cell. '
  'So the value read later from a term is the one given, whichever environments have been deallocated in between.',
  ['inputs', 'histories'], 'all words that C functions store in terms (structures, lists, global variables), whatever the argument they come from: argument registers, sub-terms, dereference results, other functions',
  TESTS + 'a dangling reference shows only for an unbound permanent variable of a caller whose environment is deallocated (last call) and overwritten before the term is read.',
  ['src/EnginePl/wam_inst.c', 'src/BipsPl/c_supp.c', 'src/BipsPl/all_solut_c.c', 'src/BipsPl/list_c.c', 'src/BipsPl/term_inl_c.c', 'src/BipsPl/g_var_inl_c.c'],
  [('globalisation', 'src/EnginePl/wam_inst.h, src/EnginePl/wam_inst.c'), ('term builders of the C interface', 'src/BipsPl/c_supp.c'), ('built-ins that build terms', 'src/BipsPl')],
  'interprocedural flow analysis of the words (classes: may refer to the local stack, may be an FD cell) from every foreign entry point to every store in a term, with branch refinement on tags and addresses',
  'All stores of words in terms by the C functions of the engine and libraries are covered, except those of the functions listed in checks/c12.py with the reason; the instructions of wam_inst.c and unify.c are decided by C11 instead.',
  observe=['value of a term after the predicate that created its variables has exited'])

REL = 'relational abstract interpretation of the C IR: each function against a reference function (same paths, calls, memory and result for all inputs), loops by matched invariants'
REFNOTE = 'Every function counted in the evidence is proved equivalent, for all inputs, to a reference function (%s) written from the documentation; the references are reviewed, not verified, and the functions they call are compared by name and arguments%s.'

P('C13', 'Terms are compared in the standard order and sorted by it',
  'compare/3 and the term comparisons order any two terms as documented: variables by age, then FD variables, floats, integers, atoms (alphabetically), compound terms (by arity, then name, then arguments from left to right); '
  'they agree with one another and with ==/2. sort/2 and msort/2 (and sort/1, msort/1, keysort/1,2) give the elements of the list in that order (keysort by key); '
  'sort/2 keeps one of several identical elements, the others keep duplicates, and elements of equal key stay in their original order.',
  ['inputs'], 'all terms (all pairs of types, depth, dereference chains) and all lists',
  TESTS + 'a tie between names, arities and arguments, an FD variable against a float, or stability at the border between the two halves of a merge appears in particular lists only.',
  ['src/BipsPl/term_supp.c', 'src/BipsPl/term_inl_c.c', 'src/BipsPl/sort_c.c', 'src/BipsPl/sort.pl'],
  [('Pl_Term_Compare', 'src/BipsPl/term_supp.c'), ('merge sort', 'src/BipsPl/sort_c.c')],
  REL, REFNOTE % ('spec/term_ref.c, spec/list_ref.c', ''),
  observe=['compare/3, @</2, ==/2; sort/1,2, msort/1,2, keysort/1,2'])

P('C14', 'Terms are tested, taken apart, built and copied as documented',
  'The type tests (var, nonvar, atom, integer, float, number, atomic, compound, callable, ground, is_list, partial_list, fd_var, generic_var, ...) hold exactly for the terms they name. '
  'arg/3, functor/3, =../2, setarg/2..4, term_ref/2 read and build the sub-terms they name; copy_term/2 gives a term with new variables, shared exactly where the original shares them, and leaves the original unchanged; '
  'term_variables/2,3 lists each variable once in depth-first order; subsumes_term/2 holds exactly when the first term can be made equal to the second by binding only its own variables, and binds nothing; '
  'term_hash/2,4 depends on the term only and is left unbound for non-ground terms.',
  ['inputs'], 'all terms: types, arity, depth, dereference chains, sharing, attributed FD variables, local stack variables',
  TESTS + 'a variable met twice, an FD variable inside a structure, the last argument of a structure or a list with an unbound tail shows an error only in that position.',
  ['src/BipsPl/term_supp.c', 'src/BipsPl/term_inl_c.c', 'src/BipsPl/type_inl_c.c'],
  [('type tests', 'src/BipsPl/type_inl_c.c'), ('inspection and construction', 'src/BipsPl/term_inl_c.c'), ('copy, variables, hash', 'src/BipsPl/term_supp.c')],
  REL, REFNOTE % ('spec/term_ref.c', '; acyclic_term/1 is not covered'),
  observe=['results of the type tests, arg/3, functor/3, =../2, copy_term/2, term_variables/2,3, subsumes_term/2, term_hash/2,4'])

P('C15', 'List predicates give exactly the solutions of their definitions',
  'append/3, member/2, memberchk/2, length/2, nth0/3, nth1/3, reverse/2, delete/3, select/3, subtract/3, permutation/2, prefix/2, suffix/2, sublist/2, last/2, flatten/2, sum_list/2, max_list/2, min_list/2, maplist/2..8, ... give, for every combination of instantiated, partial and unbound lists, the solutions of their logical definitions, each once and in the order of the definition, '
  'leave no choice point when no further solution can exist by the form of the list, and raise only the documented errors.',
  ['inputs', 'histories'], 'all lists (proper, partial, with shared tails, not lists) in all argument positions, first solution and solutions on backtracking',
  TESTS + 'a mode that is seldom used (both lists partial, a list ending in one of the other arguments, a retry after a partial match) has a path of its own.',
  ['src/BipsPl/list_c.c', 'src/BipsPl/list.pl'],
  [('predicates written in C with their alternatives', 'src/BipsPl/list_c.c')],
  REL, REFNOTE % ('spec/list_ref.c', '; the predicates written in Prolog are compared with reference clauses (spec/pl/list.pl)'),
  observe=['solutions and their order; choice points left'])

P('C16', 'Built-ins accept, read and return arguments as their types say',
  'Every function by which a C built-in or a user\'s C code reads an argument (Pl_Rd_..._Check), checks an argument that will receive a result (Pl_Check_For_Un_...), unifies a result (Pl_Un_...) or builds a term (Pl_Mk_...) '
  'accepts exactly the terms of its type, raises the documented error with the documented culprit for every other one, returns the value the term denotes, and unifies or builds exactly the term that denotes the value.',
  ['inputs'], 'all terms given to each function of the argument interface: any type, dereference chains, boundary integers, character codes 0..255 and beyond, partial lists',
  TESTS + 'they read an argument of a wrong type or on a boundary (code 0 or 256, -1 for in_code, a 32-bit limit) through a few of the 130 functions only.',
  ['src/BipsPl/c_supp.c', 'src/BipsPl/c_supp.h', 'doc/c-interface.tex'],
  [('readers, checkers, unifiers and builders', 'src/BipsPl/c_supp.c')],
  REL, REFNOTE % ('spec/args_ref.c', ''),
  observe=['errors and results of built-ins; the C interface functions of gprolog.h'])

UREF = REL + '; library clauses normalised to trees of goals, tests and commitments and compared with reference clauses'
UNOTE = ('Every C function and library predicate of the listed units is compared, for all inputs, with a reference (spec/*_ref.c, spec/pl/*.pl) that states the sequence of calls, unifications, memory and results. '
         'The references are the reviewed current definitions (restated with their own header macros), not a proof from first principles: what the check establishes is that the sources still compute the reviewed functions; '
         'an equivalent reformulation is proved equivalent or left undecided. %s')
SAMPLE = TESTS

P('C17', 'findall, bagof and setof collect all solutions, grouped and ordered',
  'findall/3,4 gives one fresh copy of the template for each solution, in order, and the given tail after them; solutions collected by an outer findall are untouched by an inner one, also when a goal inside is left by an exception. '
  'bagof/3 and setof/3 fail when there is no solution, group the solutions by the variables of the goal that are neither in the template nor quantified by ^/2, and enumerate the groups on backtracking, '
  'in the standard order of their keys, without losing, duplicating or merging solutions of different keys; setof/3 sorts each group and removes duplicates.',
  ['inputs', 'histories'], 'all templates, goals, quantified and free variables, nested calls, exceptions, backtracking into the groups',
  SAMPLE + 'keys that are variants of each other, nested collections or an exception in between need particular combinations.',
  ['src/BipsPl/all_solut.pl', 'src/BipsPl/all_solut_c.c'],
  [('free variables, solutions and groups', 'src/BipsPl/all_solut_c.c'), ('the predicates', 'src/BipsPl/all_solut.pl')],
  UREF, UNOTE % 'The size of the collected solutions is bounded by memory only; exhaustion is not modelled.',
  observe=['answers of findall/3,4, bagof/3, setof/3'])

P('C18', 'Calls, cuts, catch and throw follow their documented control',
  'call/1..11, once/1, \\+/1, ->/2, *->/2, ;/2, forall/2, call_det/2, between/3, for/3, repeat/0 run the goal given, with the arguments added in order, with a cut local to the call; a body that is not callable raises the documented error. '
  'throw/1 goes to the innermost active catch/3 whose catcher unifies with a copy of the ball, after the bindings made since have been undone; if no catcher unifies the ball goes on; catch/3 is transparent to backtracking. '
  'Clauses executed by the byte-code of dynamic predicates and goals called from or by C behave as compiled ones.',
  ['inputs', 'programs', 'histories'], 'all goals, control constructs, nesting of catch/3, balls and choice points',
  SAMPLE + 'a cut in the condition of a called if-then-else or a ball that meets a catcher that does not unify needs a specific nesting.',
  ['src/BipsPl/control.pl', 'src/BipsPl/control_c.c', 'src/BipsPl/call.pl', 'src/BipsPl/call_args.pl', 'src/BipsPl/call_args_c.c', 'src/BipsPl/callinf_supp.c', 'src/BipsPl/catch.pl',
   'src/BipsPl/throw.pl', 'src/BipsPl/throw_c.c', 'src/BipsPl/bc_supp.c', 'src/BipsPl/foreign.pl', 'src/BipsPl/foreign_supp.c', 'src/BipsPl/utils.pl'],
  [('call and cut barrier', 'src/BipsPl/call.pl, src/BipsPl/callinf_supp.c'), ('catch and throw', 'src/BipsPl/catch.pl, src/BipsPl/throw_c.c'), ('byte-code', 'src/BipsPl/bc_supp.c')],
  UREF, UNOTE % 'The compiled instructions themselves are C11 and C27.',
  observe=['order of side effects and answers of goals; choice points left; balls caught'])

P('C19', 'Clauses are added, retrieved and removed as the logical update view says',
  'assertz/asserta/retract/clause/retractall/abolish/erase and predicate properties see and change the clause database as documented: clauses are tried in their order, a goal in progress sees exactly the clauses that existed when it was called, '
  'indexing on the first argument never skips a clause that could match nor tries an erased one, and retract/1 removes exactly one clause per solution. Changing a predicate that is not dynamic, or accessing a private one, raises the documented permission error.',
  ['inputs', 'histories'], 'all clauses, first arguments (atom, integer, list, structure, variable), and all interleavings of addition and removal with running goals',
  SAMPLE + 'a clause erased or added while a goal walks through one of the three chains of clauses of the same predicate needs a specific history.',
  ['src/BipsPl/assert.pl', 'src/BipsPl/assert_c.c', 'src/BipsPl/dynam_supp.c', 'src/BipsPl/dynam_supp.h', 'src/BipsPl/pred.pl', 'src/BipsPl/pred_c.c', 'src/BipsPl/pred_supp.c', 'src/EnginePl/pred.c', 'src/EnginePl/hash_tbl.c'],
  [('dynamic clauses and their indexing', 'src/BipsPl/dynam_supp.c'), ('assert, retract, clause', 'src/BipsPl/assert_c.c, src/BipsPl/assert.pl'), ('predicate table', 'src/EnginePl/pred.c, src/BipsPl/pred_c.c')],
  UREF, UNOTE % 'Memory is reclaimed in idle moments; when it is, is not part of the property.',
  observe=['answers of goals on dynamic predicates, clause/2, retract/1, listing/1, predicate_property/2'])

P('C20', 'Atoms are unique and text built-ins relate exactly the text they name',
  'Two atoms are the same exactly when their texts are, however they were created; the classification of an atom (needs quotes, operator, length) follows its text. '
  'atom_length/2, atom_concat/3, sub_atom/5, atom_chars/2, atom_codes/2, char_code/2, number_atom/2, number_chars/2, number_codes/2, upper_lower/2, term_to_atom/2, new_atom/1..3, current_atom/1 '
  'give all and only the solutions of the relation between the texts, in the documented order, in every mode.',
  ['inputs', 'histories'], 'all atoms (empty, quoted, any code 1..255), all positions and lengths, all modes',
  SAMPLE + 'the empty atom, a sub-atom at the end or the last solution on backtracking need a particular call.',
  ['src/EnginePl/atom.c', 'src/BipsPl/atom.pl', 'src/BipsPl/atom_c.c'],
  [('atom table', 'src/EnginePl/atom.c'), ('text predicates', 'src/BipsPl/atom_c.c, src/BipsPl/atom.pl')],
  UREF, UNOTE % 'Texts longer than the internal buffers are not modelled (see DESIGN.md).',
  observe=['==/2 on atoms; answers of the text predicates'])

P('C21', 'Terms are read as the syntax and the operator table say',
  'read_term/2,3 and the readers of tokens, numbers and atoms turn a text into the term the ISO syntax (with the documented extensions and flags) gives it: tokens, quoted items and escape sequences, numbers in every base, '
  'operators by priority and associativity, prefix operators as atoms, lists, braces, block comments, variables with their names and singletons; a text that is not a term raises syntax_error at the position of the error and the rest of the clause is skipped. '
  'op/3 accepts and rejects operators as documented and current_op/3 enumerates them.',
  ['inputs', 'histories'], 'all texts, operator tables and flags',
  SAMPLE + 'a prefix operator as operand, a priority clash or an escape sequence at the end of a line needs its own text.',
  ['src/BipsPl/lexer_supp.c', 'src/BipsPl/parser_supp.c', 'src/BipsPl/read_c.c', 'src/BipsPl/read.pl', 'src/BipsPl/oper.pl', 'src/BipsPl/oper_c.c', 'src/EnginePl/oper.c'],
  [('tokens', 'src/BipsPl/lexer_supp.c'), ('terms', 'src/BipsPl/parser_supp.c'), ('operator table', 'src/EnginePl/oper.c')],
  UREF, UNOTE % 'Very large functions (the operator precedence parser) are compared up to a bound on the paths; beyond it they are undecided.',
  observe=['terms, variable names and syntax errors of read_term/2, number_codes/2, atom_to_term/3'])

P('C22', 'Terms are written as their options say, and can be read back when quoted',
  'write_term/2,3, write/1, print/1, writeq/1, write_canonical/1, display/1 write the text the options (quoted, ignore_ops, numbervars, portrayed, max_depth, space_args, priority, namevars, variable_names) prescribe: atoms are quoted exactly when needed, '
  'operators get brackets exactly when the priority or an adjoining token requires, negative numbers and prefix minus are kept apart, a blank is written between two tokens that would be read as one. '
  'format/2,3 executes each directive with its argument and column stops, and raises format_error otherwise; portray_clause/1 and listing write clauses that read back.',
  ['inputs'], 'all terms, operator tables, options and format strings',
  SAMPLE + 'an operator as argument of an operator or a negative number as left operand is written by few of them.',
  ['src/BipsPl/write_supp.c', 'src/BipsPl/write_c.c', 'src/BipsPl/write.pl', 'src/BipsPl/print.pl', 'src/BipsPl/format_c.c', 'src/BipsPl/format.pl', 'src/BipsPl/pretty_c.c', 'src/BipsPl/pretty.pl'],
  [('writer', 'src/BipsPl/write_supp.c'), ('format', 'src/BipsPl/format_c.c'), ('clauses', 'src/BipsPl/pretty_c.c')],
  UREF, UNOTE % 'That the text reads back as the same term follows only for the reviewed pair of reader and writer; it is not proved.',
  observe=['text written on a stream'])

P('C23', 'Streams deliver and accept characters, positions and conditions as documented',
  'Opening, closing, redirecting, seeking and the end-of-file actions, aliases and mirrors of streams behave as documented; get, peek, unget and put of characters, codes and bytes move exactly one item, keep line, column and byte counts, '
  'and distinguish end of file, past end of file and the error conditions (text/binary, input/output, closed or unknown stream). Constant term streams read what was given and return what was written. A stream is never left open or locked by a failing operation.',
  ['inputs', 'histories'], 'all streams, modes, options and sequences of operations',
  SAMPLE + 'peeking at the end of a file, an eof_action after a push back, or closing the current input needs a sequence of operations.',
  ['src/BipsPl/stream_supp.c', 'src/BipsPl/stream_c.c', 'src/BipsPl/stream.pl', 'src/BipsPl/char_io_c.c', 'src/BipsPl/char_io.pl', 'src/BipsPl/const_io_c.c', 'src/BipsPl/const_io.pl', 'src/BipsPl/dec10io.pl'],
  [('stream table and buffers', 'src/BipsPl/stream_supp.c'), ('stream predicates', 'src/BipsPl/stream_c.c, src/BipsPl/stream.pl'), ('characters', 'src/BipsPl/char_io_c.c, src/BipsPl/char_io.pl')],
  UREF, UNOTE % 'The C library and the operating system are taken as correct.',
  observe=['characters read and written; stream_property/2, stream_position/2, line_count/2, at_end_of_stream/1'])

P('C24', 'Global variables hold exactly what was assigned to them',
  'g_assign, g_assignb, g_link, g_read, g_array, g_array_size, g_inc, g_inco, g_dec, g_set_bit, g_test_set_bit, ... read and change exactly the element of the global variable or array named: '
  'a copy for g_assign, kept on backtracking; undone on backtracking for g_assignb; shared with the term for g_link; arrays keep their other elements when one is changed or when they are extended; '
  'counters and bits are changed by exactly the amount named and return the old or new value as documented.',
  ['inputs', 'histories'], 'all variables, arrays of any dimensions, index terms (also nested global names), values and backtracking',
  SAMPLE + 'an element that was itself an array, a self-extending index or backtracking over g_link needs a history.',
  ['src/BipsPl/g_var_inl_c.c', 'src/BipsPl/g_var_inl.pl'],
  [('global variables', 'src/BipsPl/g_var_inl_c.c')],
  UREF, UNOTE % '',
  observe=['g_read/2, g_counter/2, g_array_size/2 after assignments and backtracking'])

P('C25', 'Flags, system, file and error predicates do what they document',
  'set_prolog_flag/2 and current_prolog_flag/2 accept, change and enumerate the flags and values documented; statistics/2, the random generators and their ranges, the operating-system predicates (date, environment, directories, exec, spawn, popen, system, sleep, select), '
  'file name predicates (absolute_file_name/2, decompose_file_name/4, file_exists/1, file_permission/2, file_property/2, ...) and sockets return what they document and turn each failing system call into the documented error; the error terms built for every kind of error have the documented form.',
  ['inputs'], 'all flags and values, arguments, path names and results of system calls',
  SAMPLE + 'a system call that fails, a path with `..` or a home directory, a range of one element are seldom tried.',
  ['src/BipsPl/flag_supp.c', 'src/BipsPl/flag_c.c', 'src/BipsPl/flag.pl', 'src/BipsPl/stat_c.c', 'src/BipsPl/stat.pl', 'src/BipsPl/random_c.c', 'src/BipsPl/random.pl', 'src/BipsPl/os_interf_c.c', 'src/BipsPl/os_interf.pl',
   'src/BipsPl/file_c.c', 'src/BipsPl/file.pl', 'src/BipsPl/sockets_c.c', 'src/BipsPl/sockets.pl', 'src/BipsPl/error_supp.c', 'src/BipsPl/pl_error.pl', 'src/EnginePl/misc.c', 'src/EnginePl/machine.c',
   'src/EnginePl/os_path.c', 'src/EnginePl/os_error.c', 'src/EnginePl/os_spawn.c'],
  [('flags', 'src/BipsPl/flag_supp.c, src/BipsPl/flag_c.c'), ('operating system', 'src/BipsPl/os_interf_c.c, src/EnginePl/os_path.c'), ('error terms', 'src/BipsPl/error_supp.c')],
  UREF, UNOTE % 'The operating system is taken as correct; the numbers a generator draws are not judged.',
  observe=['answers and errors of the predicates'])

P('C26', 'Programs are consulted, grammar rules translated and goals traced as documented',
  'consult/1, load/1, include/1 and the source reader handle each clause and directive of a file in order: clauses are added to their predicate, directives are executed, discontiguous, multifile and dynamic declarations are obeyed, redefinitions and errors reported with the right position; '
  'term expansion and the translation of -->/2 give clauses with the meaning of the grammar rule (terminals, pushback, cuts, {}//1, call//N, phrase/2,3); the top level shows the bindings of a query and all its solutions on demand; '
  'the debugger shows call, exit, redo, fail and exception ports of the spied goals without changing the answers.',
  ['inputs', 'programs'], 'all source files, declarations, grammar rules and queries',
  SAMPLE + 'a pushback list, a cut in a grammar body or a discontiguous predicate of another file appears in particular programs.',
  ['src/BipsPl/consult.pl', 'src/BipsPl/consult_c.c', 'src/BipsPl/src_rdr.pl', 'src/BipsPl/src_rdr_c.c', 'src/BipsPl/expand.pl', 'src/BipsPl/expand_c.c', 'src/BipsPl/debugger.pl', 'src/BipsPl/debugger_c.c',
   'src/BipsPl/top_level.pl', 'src/BipsPl/top_level_c.c', 'src/BipsPl/le_interf.pl', 'src/BipsPl/le_interf_c.c'],
  [('consult', 'src/BipsPl/consult.pl, src/BipsPl/consult_c.c'), ('grammar rules', 'src/BipsPl/expand.pl'), ('debugger', 'src/BipsPl/debugger.pl')],
  UREF, UNOTE % '',
  observe=['clauses of a consulted file, answers and messages of the top level, expand_term/2'])

PLREL = 'library clauses normalised to trees of goals, tests and commitments and compared with reference clauses, for all arguments'

P('C27', 'The compiler translates each clause into WAM code with the same meaning',
  'pl2wam reads a source file as consult/1 does (directives, declarations, grammar rules, conditional compilation, errors) and produces for each predicate WAM code that selects, unifies, calls and cuts as the clauses say: '
  'permanent and temporary variables are classified and allocated so that no live register or environment slot is overwritten, first-occurrence and unsafe variables get the instruction of their kind, '
  'indexing considers exactly the clauses whose first argument can match, if-then-else, negation and disjunctions become auxiliary predicates with the same cuts, inline predicates and arithmetic keep their arguments.',
  ['programs'], 'all source programs',
  SAMPLE + 'register allocation, unsafe variables and indexing depend on the shape of a clause; the test programs contain few shapes.',
  ['src/Pl2Wam/code_gen.pl', 'src/Pl2Wam/first_arg.pl', 'src/Pl2Wam/indexing.pl', 'src/Pl2Wam/inst_codif.pl', 'src/Pl2Wam/internal.pl', 'src/Pl2Wam/pl2wam.pl', 'src/Pl2Wam/read_file.pl', 'src/Pl2Wam/reg_alloc.pl',
   'src/Pl2Wam/syn_sugar.pl', 'src/Pl2Wam/wam_emit.pl'],
  [('normalisation', 'src/Pl2Wam/syn_sugar.pl, src/Pl2Wam/internal.pl'), ('code generation and register allocation', 'src/Pl2Wam/code_gen.pl, src/Pl2Wam/reg_alloc.pl'), ('indexing', 'src/Pl2Wam/indexing.pl')],
  PLREL, UNOTE % 'The meaning of the instructions is C11; the two together are not composed into a proof of compiler correctness.',
  observe=['answers of compiled programs; the .wam file'])

P('C28', 'FD constraint definitions are compiled to C with the same meaning',
  'fd2c accepts the language of FD constraint definitions, rejects other texts with an error, and translates each constraint: parameters and their offsets, start and value rules, the order of blocks, stop and wait_switch cases, '
  'dependencies of each rule on min, max, min_max, dom or val of exactly the variables it reads, boolean and arithmetic expressions with the precedence of the grammar, local terms computed once.',
  ['programs'], 'all constraint definitions',
  SAMPLE + 'they run the constraints of the library, whose generated C is fixed; a missing dependency shows only for chains of constraints that need this wake-up.',
  ['src/Fd2C/compile.pl', 'src/Fd2C/fd2c.pl', 'src/Fd2C/parse.pl', 'src/Fd2C/read_file.pl'],
  [('parsing and code emission', 'src/Fd2C/parse.pl'), ('compilation', 'src/Fd2C/compile.pl')],
  PLREL, UNOTE % 'Grammar rules are translated to clauses first.',
  observe=['the C file produced for a .fd file; propagation of the constraints'])

P('C29', 'WAM code becomes machine code that does the same, and programs link',
  'wam2ma reads every WAM file pl2wam may write (quoted names, numbers, nested terms) and emits for each instruction the call or code of the engine with the same operands; switch tables, tagged words, atoms, floats and foreign calls are those of the clause; '
  'ma2asm emits x86_64 code that passes arguments, registers and results as the machine conventions require and keeps the engine registers; two predicates never get the same assembler symbol and a mangled name decodes to its predicate; '
  'the compiler driver runs the passes for the kinds of files and options given, and reports failing ones.',
  ['programs', 'inputs'], 'all WAM files, operands (large integers, special characters, long names), numbers of arguments, files and options',
  SAMPLE + 'operands out of the range of an immediate, calls with more arguments than registers or names with special characters appear in few programs.',
  ['src/Wam2Ma/wam2ma.c', 'src/Wam2Ma/wam_parser.c', 'src/Ma2Asm/ma2asm.c', 'src/Ma2Asm/ma_parser.c', 'src/Ma2Asm/ma2asm_inst.c', 'src/Ma2Asm/x86_64_any.c', 'src/TopComp/mangling.c', 'src/TopComp/top_comp.c', 'src/Tools/rbtree.c'],
  [('WAM to mini-assembly', 'src/Wam2Ma/wam2ma.c'), ('mini-assembly to x86_64', 'src/Ma2Asm/x86_64_any.c'), ('names', 'src/TopComp/mangling.c')],
  REL, UNOTE % 'The assembler text is compared as text, not executed; mappers of other machines are not built here and not covered.',
  observe=['behaviour of compiled programs; the assembly file; gplc exit status'])

P('C30', 'The engine starts, is called from C and grows its tables as defined',
  'The engine initialises its stacks, tables and registers before any Prolog code runs, in the documented order of units; sizes of the stacks come from the command line, the environment or the defaults as documented, and an overflow of a stack is reported for that stack; '
  'a call of Prolog from C saves and restores the registers of the caller and reports success, failure or exception; hash values depend only on the bytes hashed, in one piece or in several.',
  ['inputs', 'histories'], 'all programs, sizes, nested calls between C and Prolog, and data hashed',
  SAMPLE + 'nested calls left by an exception, an unaligned buffer or a size given in the environment are not exercised.',
  ['src/EnginePl/engine.c', 'src/EnginePl/main.c', 'src/EnginePl/unit_ctor.c', 'src/EnginePl/if_no_fd.c', 'src/EnginePl/stacks_sigsegv.c', 'src/Tools/hash_fct.c'],
  [('engine', 'src/EnginePl/engine.c'), ('stacks', 'src/EnginePl/stacks_sigsegv.c'), ('hashing', 'src/Tools/hash_fct.c')],
  REL, UNOTE % 'Delivery of signals by the system is not modelled.',
  observe=['behaviour of programs that embed Prolog; message of a stack overflow; term_hash/2'])

P('C31', 'The line editor edits exactly the line the keys describe',
  'For any sequence of keys, the line editor applies each editing function (motion, deletion, transposition, case, mark and yank, history, search, completion) to the text as documented, keeps the text and the displayed line in step, never moves outside of the text, '
  'and returns the line typed; completion offers exactly the known words with the prefix typed, in order.',
  ['inputs', 'histories'], 'all sequences of keys, lines and histories',
  SAMPLE + 'they run without a terminal: the line editor is not exercised.',
  ['src/Linedit/linedit.c', 'src/Linedit/terminal.c', 'src/Linedit/completion.c', 'src/Linedit/ctrl_c.c'],
  [('editing functions', 'src/Linedit/linedit.c'), ('terminal', 'src/Linedit/terminal.c'), ('completion', 'src/Linedit/completion.c')],
  REL, UNOTE % 'The terminal itself is not modelled.',
  observe=['the line returned and the text displayed'])

N('N01', 'FD search is complete and terminates on finite domains',
  'fd_labeling/1,2 and fd_minimize/fd_maximize, applied to any conjunction of constraints over finite domains, find all solutions (or the optimum) and terminate.',
  ['inputs', 'programs'], 'all constraint problems', 'Only a few problems are run.',
  ['src/BipsFD/fd_values_c.c', 'src/BipsFD/fd_optim.pl'], [('labeling', 'src/BipsFD/fd_values_c.c')],
  'Termination and completeness of a search composed of propagation at run time, over arbitrary programs: no static argument in reach bounds it. Its local parts (rules, domains, wake-ups, labeling order) are C07, C08, C10.')
N('N02', 'A term written quoted reads back as the same term',
  'For every term and operator table, the text of writeq/1 or write_canonical/1 is read back by read/1 as a variant of the term.',
  ['inputs'], 'all terms and operator tables', 'Only samples are written and read.',
  ['src/BipsPl/write_supp.c', 'src/BipsPl/parser_supp.c'], [('writer and reader', 'src/BipsPl/write_supp.c, src/BipsPl/parser_supp.c')],
  'An inverse relation between two large recursive programs over unbounded texts with a run-time operator table; each side is decided against its own reference (C21, C22), the composition is not.')
N('N03', 'Compiled and interpreted programs give the same answers',
  'A program gives the same answers, in the same order, whether its clauses are compiled to native code, consulted (byte-code) or asserted.',
  ['programs'], 'all programs', 'Only sample programs are run both ways.',
  ['src/Pl2Wam/code_gen.pl', 'src/BipsPl/bc_supp.c'], [('compiler and byte-code', 'src/Pl2Wam/code_gen.pl, src/BipsPl/bc_supp.c')],
  'Whole-compiler correctness quantified over programs; the stages are decided one by one (C11, C18, C27, C29), their composition is a proof outside of this family.')
N('N04', 'Exhausted stacks and memory are reported, never corrupt the system',
  'When a stack or the memory is exhausted, the program reports a fatal error naming it, and no data is overwritten before.',
  ['inputs', 'fault_sequences'], 'all programs and sizes of stacks', 'Exhaustion is not provoked by tests.',
  ['src/EnginePl/stacks_sigsegv.c', 'src/EnginePl/mem_alloc.c'], [('stacks', 'src/EnginePl/stacks_sigsegv.c')],
  'Depends on run-time sizes, guard pages and the layout of mappings; a static bound on the use of the stacks by arbitrary programs does not exist.')
N('N05', 'Ctrl+C and signals never leave the engine inconsistent',
  'An interruption at any moment leads to the documented menu or exception and the computation can go on.',
  ['schedules'], 'all moments at which a signal may arrive', 'Not tested.',
  ['src/Linedit/ctrl_c.c', 'src/BipsPl/top_level_c.c'], [('interruption', 'src/Linedit/ctrl_c.c')],
  'The handler runs non-reentrant code by design and relies on the moment of delivery; asynchronous interleavings with generated code that keeps the engine in machine registers are out of reach of source analysis.')
N('N06', 'Deterministic recursion runs in constant space where documented',
  'Last-call optimisation, first-argument indexing and cuts free environments and choice points so that deterministic recursion runs in constant local stack.',
  ['programs'], 'all deterministic programs', 'Only visible with long runs.',
  ['src/Pl2Wam/code_gen.pl', 'src/EnginePl/wam_inst.c'], [('last calls', 'src/Pl2Wam/code_gen.pl')],
  'A quantity of the execution (space) over arbitrary programs; instructions and code generation are decided (C11, C27) but no static bound on the space follows.')
N('N07', 'Text of any length is handled without overrunning buffers',
  'No atom, number, string, path or error message, however long, makes a built-in write outside of its buffers.',
  ['inputs'], 'all texts of any length', 'Long texts are not tested.',
  ['src/BipsPl/error_supp.c', 'src/EnginePl/os_path.c', 'src/BipsPl/c_supp.c'], [('buffers', 'src/BipsPl/error_supp.c, src/BipsPl/c_supp.c')],
  'The current sources rely on fixed buffers (e.g. pl_glob_buff) whose sufficiency depends on run-time lengths; a sound static check would have to reject the code as it is. The places found are listed in DESIGN.md.')
