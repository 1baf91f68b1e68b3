#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import specs
P = []
def prop(id, title, statement, over, text, why, files, mech, claimed=True, reason=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(','), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(','), mechanism=[dict(name=n, where=w) for n, w in mech]), claimed=claimed, reason=reason, note=note))
SOLVER = 'src/solver/NapSAT.cpp,src/solver/NapSAT-propagation.cpp,src/solver/NapSAT-conflict.cpp,src/solver/NapSAT-imply.cpp,src/solver/NapSAT-backtrack.cpp,src/solver/NapSAT-clauses.cpp'
NOTEST = 'The tests that pass here do not touch the solver at all (they cover the bit set, the search tree and the restart counter); the sampled CNF files of the remaining tests are a handful of formulas.'
prop('P01', 'A satisfiable answer comes with a model of every added clause',
  'When solving answers SAT, the reported assignment gives every variable of the clauses at most one value, lists each assigned literal once, agrees with the per-variable values, and makes at least one literal of every added clause true (clauses containing a literal and its negation are true anyway). This holds for every clause set and every backtracking strategy (non-chronological, chronological, lazy strong chronological, graph backtracking with every merging, blocking and cost-estimation variant), in debug and release builds, and no internal consistency check fails on the way.',
  'inputs,configurations', 'all clause sets x all backtracking strategies', NOTEST, SOLVER,
  [('propagation finds every falsified clause', 'src/solver/NapSAT-propagation.cpp propagate_lit'), ('the answer SAT needs a fully propagated trail', 'src/solver/NapSAT.cpp solve/propagate/decide'), ('watch lists kept over backtracking', 'src/solver/NapSAT-backtrack.cpp')])
prop('P02', 'An unsatisfiable answer is given only for unsatisfiable clause sets',
  'When solving answers UNSAT (without assumptions), no assignment of the variables makes all added clauses true. This holds for every clause set and every backtracking strategy, in debug and release builds, and no internal consistency check fails on the way.',
  'inputs,configurations', 'all clause sets x all backtracking strategies', NOTEST, SOLVER,
  [('learned clauses are implied', 'src/solver/NapSAT-conflict.cpp'), ('empty clause / root conflict', 'src/solver/NapSAT-clauses.cpp internal_add_clause, NapSAT-conflict.cpp repair_conflicts')])
prop('P03', 'Solving always ends with a definite answer, cleanly',
  'Without limits, solving terminates with SAT or UNSAT, answers the same when asked again, and the whole life of a solver (creation, adding clauses, solving, deletion) performs no invalid memory access, no undefined operation, fails no internal consistency check and leaves no memory behind. This includes degenerate inputs: no clause, the empty clause, unit clauses, clauses with repeated or complementary literals, and variables or clauses beyond those announced at creation.',
  'inputs,configurations', 'all clause sets, including degenerate ones x all backtracking strategies', NOTEST, SOLVER + ',src/solver/NapSAT-purge.cpp,src/solver/NapSAT-utils.cpp',
  [('main loop', 'src/solver/NapSAT.cpp solve'), ('growth of the variable tables', 'src/solver/NapSAT-utils.cpp var_allocate'), ('release', 'src/solver/NapSAT.cpp destructor')])
prop('P04', 'Clauses mean the same however they are entered',
  'A clause entered literal by literal or as an array constrains the solver to exactly the assignments that make one of its literals true, whatever the order of its literals, its length (including empty and unit clauses) and the clauses before it; repeated literals in an array count once and complementary literals make the clause true. The array of the caller is neither changed nor needed afterwards. Variables need not be announced, and a variable created explicitly is a fresh one.',
  'inputs,histories', 'all clauses and ways to enter them', 'Tests only read well-formed files.', 'src/solver/NapSAT-clauses.cpp,src/solver/NapSAT.cpp,src/solver/NapSAT-utils.cpp,src/SAT-API.cpp',
  [('normalisation', 'src/solver/NapSAT-clauses.cpp internal_add_clause, NapSAT-utils.cpp cleanup_duplicate_literals'), ('entry by literals', 'src/solver/NapSAT.cpp start_clause, add_literal, finalize_clause'), ('variables', 'src/solver/NapSAT-utils.cpp var_allocate')])
prop('P05', 'Search options do not change what is satisfiable',
  'Turning restarts or clause deletion on or off, changing activity decay and clause elimination parameters, or ignoring unused variables never changes the satisfiability answer, never invalidates a reported model, and never makes solving crash or run forever.',
  'inputs,configurations', 'all clause sets x search options x backtracking strategies', NOTEST, 'src/solver/NapSAT-purge.cpp,src/solver/NapSAT-clauses.cpp,src/solver/NapSAT.cpp,src/solver/SAT-options.cpp',
  [('deleting inactive learned clauses', 'src/solver/NapSAT-purge.cpp simplify_clause_set'), ('restart', 'src/solver/NapSAT-backtrack.cpp restart'), ('unused variables', 'src/solver/NapSAT-clauses.cpp var_mark_constrained')])
prop('P06', 'Clauses added after an answer are respected by later answers',
  'Solving can be repeated after adding further clauses, any number of times and under every backtracking strategy: each answer is right for all clauses added so far (SAT comes with a model of all of them, UNSAT only when they have none), whether the new clauses agree with the current assignment, become unit or false under it, use new variables or are empty. In particular, blocking each model found enumerates every model exactly once and ends with UNSAT. Nothing crashes and no internal consistency check fails.',
  'histories,inputs,configurations', 'all sequences of solving and adding clauses x all backtracking strategies', 'No test adds a clause after solving.', SOLVER,
  [('clauses added under an assignment', 'src/solver/NapSAT-clauses.cpp internal_add_clause'), ('true literals implied lower', 'src/solver/NapSAT-imply.cpp reimply_literal, reimply_literal_root'), ('SAT left when a clause is falsified', 'src/solver/NapSAT-clauses.cpp'), ('model enumeration', 'main.cpp')])
prop('P15', 'Reading a DIMACS file adds exactly the clauses of the file',
  'After reading a DIMACS file, the clauses of the solver are exactly those written in it: zero-terminated sequences of integers separated by blanks and line breaks in any layout, lines starting with c and the problem line adding nothing, a line starting with % ending the file, repeated or complementary literals allowed. A token in a clause that is not a number makes reading fail and report it, unless the clauses before it are already contradictory. Nothing in the file makes the reader crash or use uninitialised data, and a second file adds its clauses to those of the first, also after solving.',
  'inputs,histories', 'all file contents', 'Tests read a handful of well-formed files.', 'src/SAT-API.cpp,src/solver/NapSAT-utils.cpp,src/utils/decoder.cpp',
  [('parser', 'src/solver/NapSAT-utils.cpp parse_dimacs'), ('literal buffer', 'src/solver/NapSAT.cpp push_literal/finalize_clause')])
prop('P07', 'Propagation reaches a fixpoint and only derives what follows',
  'In a search driven by the user (propagation, decisions on open literals of the choice of the user or of the solver, clauses added in between) under every backtracking strategy: after propagation that asks for a decision, every clause is true or has two open variables; every assigned literal follows from the clauses and the literals reported as decided, every root literal from the clauses alone; the assignment and the variable values agree; a decision makes exactly one open literal true. Propagation tells whether a decision is needed, and solving afterwards gives the right answer.',
  'inputs,histories,configurations', 'all clause sets x all sequences of decisions x all backtracking strategies', 'No test drives the solver step by step.', SOLVER,
  [('watched literals', 'src/solver/NapSAT-propagation.cpp propagate_lit'), ('implication', 'src/solver/NapSAT-imply.cpp imply_literal'), ('repair of conflicts', 'src/solver/NapSAT-conflict.cpp repair_conflicts')])
prop('P09', 'Assumptions constrain exactly the solving they are held for',
  'Under graph backtracking (the only strategies that implement assumptions), after any history of assuming literals, solving, forgetting one or all assumptions and adding clauses: an accepted assumption is true until it is forgotten, and is rejected only when the clauses and the assumptions held contradict it; solving answers SAT with a model of the clauses and the assumptions held, or UNSAT when there is none; the core reported then consists of assumptions held that the clauses contradict together. Forgotten assumptions constrain nothing: the next answer is right for what remains. Nothing crashes and no internal consistency check fails.',
  'histories,inputs,configurations', 'all clause sets x histories of assuming, forgetting, solving and adding x graph backtracking strategies', 'The one test assumes a few fixed literals.', 'src/solver/NapSAT-assumptions.cpp,src/solver/NapSAT.cpp,src/solver/NapSAT-backtrack.cpp,src/solver/NapSAT-conflict.cpp',
  [('assumptions as decisions that are not undone', 'src/solver/NapSAT-assumptions.cpp add_assumption'), ('core', 'src/solver/NapSAT-assumptions.cpp'), ('restart keeps assumptions', 'src/solver/NapSAT-backtrack.cpp restart')])
prop('P10', 'Clause cores contradict the failed assumptions',
  'With dependency recording (--record-dependencies) under graph backtracking, whenever solving answers UNSAT, after any history of assuming, forgetting, solving and adding clauses, the clause core is a set of identifiers that adding clauses returned, each for one added clause, and these clauses alone contradict the reported core of failed assumptions (nothing, when the clauses contradict each other); with other search options, proofs or clause deletion as well. Recording dependencies does not change the answers.',
  'histories,inputs,configurations', 'all clause sets x histories of assuming, forgetting, solving and adding x graph backtracking strategies', 'No test records dependencies in the solver.', 'src/solver/NapSAT-assumptions.cpp,src/solver/NapSAT-conflict.cpp,src/solver/NapSAT-clauses.cpp,src/solver/NapSAT-purge.cpp,src/proof/dependency_tracker.cpp',
  [('core from the failing conflict', 'src/solver/NapSAT-assumptions.cpp clause_unsat_core'), ('premises of learned clauses', 'src/solver/NapSAT-conflict.cpp try_and_learn'), ('removal of root literals', 'src/solver/NapSAT.cpp root_reasons')])
prop('P11', 'Stopping at a conflict limit leaves a solver that can go on',
  'Solving with a limit on the number of conflicts (given per call or as option) answers UNKNOWN, or the right answer; after UNKNOWN the partial assignment is consistent, its literals follow from the clauses and its decisions, clauses can be added, and solving again, with or without limit, gets to the right answer. Repeated calls with a limit reach an answer.',
  'inputs,histories,configurations', 'all clause sets x sequences of limits x all backtracking strategies', 'No test uses a limit.', 'src/solver/NapSAT.cpp,src/solver/NapSAT-conflict.cpp',
  [('limit', 'src/solver/NapSAT.cpp propagate, solve(conflict_limit)'), ('repair before stopping', 'src/solver/NapSAT.cpp propagate')])
prop('P12', 'Every unsatisfiable answer comes with a valid resolution proof',
  'With proof generation on, whenever solving answers UNSAT (under any backtracking strategy and search options, also after clauses were added to an already solved set), the proof check succeeds, and the printed proof is a refutation: its inputs are added clauses, every other line is the resolvent of the two earlier lines it names, and it ends in the empty clause. Building the proof never crashes or fails a consistency check.',
  'inputs,configurations,histories', 'all unsatisfiable clause sets x all backtracking strategies', 'The tests check the proofs of a handful of formulas.', 'src/proof/proof.cpp,src/solver/NapSAT-conflict.cpp,src/solver/NapSAT-purge.cpp,src/solver/NapSAT-clauses.cpp,src/solver/NapSAT.cpp',
  [('resolution chain of the conflict analysis', 'src/solver/NapSAT-conflict.cpp analyze_conflict, try_and_learn'), ('removal of root literals', 'src/solver/NapSAT.cpp prove_root_literal_removal'), ('empty clause', 'src/solver/NapSAT-conflict.cpp root_level_conflict, prove_root_conflict_with_lazy_merging')])
prop('P13', 'The proof checker accepts exactly the valid refutations',
  'For every set of input clauses and every sequence of claimed resolution chains, the proof check succeeds exactly when the empty clause was recorded and every chain below it, resolved link by link, gives exactly the claimed clause; in particular it never succeeds for satisfiable inputs, and neither deactivating clauses nor checking again changes the verdict. Removing root literals replaces a clause by the clause without exactly those literals, with a valid chain.',
  'inputs,histories', 'all clause sets and resolution chains', 'No test feeds the checker a wrong proof.', 'src/proof/proof.cpp,src/proof/proof.hpp',
  [('chain check', 'src/proof/proof.cpp check_resolution_chain, check_proof'), ('root literals', 'src/proof/proof.cpp remove_root_literals')])
prop('P14', 'Clause cores list exactly the input premises of a derivation',
  'The dependency tracker answers, after any history of registering input clauses, deriving clauses from others, cancelling derivations and deleting clauses, with exactly the set of input clauses the queried clause was derived from. Every input clause is its own and only premise, and a query does not change later answers.',
  'histories', 'all histories of tracker operations', 'No test touches the tracker.', 'src/proof/dependency_tracker.cpp,src/proof/dependency_tracker.hpp',
  [('premise sets', 'src/proof/dependency_tracker.cpp')])
prop('P16', 'A bit set behaves as the set of the inserted and not removed indices',
  'After any history of insertions, removals, clearing, growing, copying and assigning, membership, size, emptiness and equality of a bit set are those of the mathematical set, and iteration yields every member exactly once in ascending order. Indices anywhere in the capacity are treated alike, including those of different words and blocks.',
  'histories,inputs', 'all histories of updates at arbitrary indices', 'The tests use a few fixed indices.', 'src/utils/bitset.cpp,src/utils/bitset.hpp', [('two-level representation', 'src/utils/bitset.cpp')])
prop('P17', 'Bit set algebra agrees with the algebra of sets',
  'Intersection, union, symmetric difference and difference (as new value and in place), intersection and difference tests, subset, superset and equality comparisons of bit sets of equal capacity give the results of the same operations on the sets of members. Operands other than the assigned one are left unchanged.',
  'inputs,histories', 'all pairs of sets', 'The tests use a few fixed sets.', 'src/utils/bitset.cpp', [('operators', 'src/utils/bitset.cpp')])
prop('P18', 'A compressed file stands for its whole content',
  'Reading a file that ends in .xz or .bz2 gives the whole of what was compressed, in any sizes of the file and the content and in any number of consecutive streams, or fails and reports it when the file is missing, damaged or ends too early: never are the clauses of only a part of it taken for the file. The decoder is released in every case.',
  'inputs', 'all compressed files', 'Tests read uncompressed files.', 'src/utils/decoder.cpp,src/solver/NapSAT-utils.cpp',
  [('xz', 'src/utils/decoder.cpp decompress_xz'), ('bzip2', 'src/utils/decoder.cpp decompress_bz2'), ('choice by the name', 'src/solver/NapSAT-utils.cpp parse_dimacs')],
  note='liblzma and libbz2 are replaced by decoders of a small format with the same interface contracts (harness/decoder.cpp).')
prop('P19', 'The decision queue always yields a variable of highest activity',
  'After any history of insertions, removals, activity updates and scalings, taking the top of the variable queue yields a contained variable whose activity is not below that of any other contained variable. Size and membership are those of the history, and emptying the queue yields every contained variable exactly once in descending order of activity.',
  'histories,inputs', 'all histories of queue operations with arbitrary activities', 'No test touches the queue.', 'src/utils/heap.cpp,src/utils/heap.hpp', [('heap order', 'src/utils/heap.cpp')])
prop('P20', 'The ordered partition is a balanced search tree without losses',
  'After any history of insertions and removals of key/data pairs, an insertion succeeds exactly for a pair not present, a removal exactly for a present pair, and the best-fit query returns data stored under the smallest key that is at least the queried key, or nothing when every key is smaller. The tree stays ordered and balanced.',
  'histories,inputs', 'all histories of tree operations with arbitrary keys', 'The tests run a few fixed sequences.', 'src/utils/partition.cpp,src/utils/partition.hpp', [('rebalancing', 'src/utils/partition.cpp')])
prop('P21', 'Restarts are signalled exactly at the scheduled conflicts',
  'The restart counter signals exactly at the partial sums of 1, 1, 2 | 1, 1, 2, 4 | 1, 1, 2, 4, 8 | ... where each round ends with the next power of two. Resetting it at any time starts the schedule over.',
  'histories', 'all numbers of calls, resets at any time', 'The test checks a prefix of the sequence without resets in between.', 'src/utils/luby-counter.hpp', [('counter', 'src/utils/luby-counter.hpp')])
prop('P22', 'Command line options mean what their names say',
  'Every documented option name and alias sets exactly its own option: boolean options to on (alone or followed by on) or off (followed by off), numeric options to the number that follows; any other token changes nothing. Global flags are removed together with their value and do not influence the rest, later values win over earlier ones, and malformed or out-of-range numbers are reported and leave the default, never crashing.',
  'inputs', 'all sequences of option tokens', 'Option parsing is only exercised by hand-written invocations.', 'src/utils/options.cpp,src/solver/SAT-options.cpp', [('token parser', 'src/utils/options.cpp'), ('option table', 'src/solver/SAT-options.cpp')])
prop('P23', 'Incompatible options are resolved to one consistent strategy',
  'Whatever combination of strategy options is requested, exactly one backtracking strategy results (graph backtracking wins over the chronological ones, the lazy strong variant over the plain one), options that need graph backtracking or another option are on only together with it, and observer groups in braces are handed over without affecting the solver options.',
  'inputs,configurations', 'all combinations and orders of strategy options', 'Option combinations are not tested.', 'src/solver/SAT-options.cpp,src/utils/options.cpp', [('compatibility rules', 'src/solver/SAT-options.cpp'), ('requirements', 'src/utils/options.cpp')])
prop('P24', 'Printed numbers and texts denote what they are given',
  'Grouped integers denote the printed number (sign, digits, a comma before each group of three digits), padding makes numbers as wide as the largest one, printed lengths ignore escape sequences, justified text keeps all words in order within the width, and durations are split correctly into hours, minutes, seconds and milliseconds, over the whole range of the types.',
  'inputs', 'all numbers and texts', 'The tests sample a few values.', 'src/utils/printer.cpp,src/utils/printer.hpp', [('formatting', 'src/utils/printer.cpp')])
prop('P25', 'Literals and numbers encode what they denote',
  'The literal made of a variable and a polarity (or truth value) has exactly that variable and polarity, negation flips the polarity only, literals are equal, ordered and undone by exclusive or as their variable-polarity pairs, and a literal is satisfied, falsified or undefined exactly as its variable has its polarity, the other value or none. Variables, levels and clause numbers compare, add and count as the numbers they hold, print as those numbers (special ones by name), and index vectors by them.',
  'inputs', 'all 32-bit values', 'No test touches these types by themselves.', 'include/SAT-types.hpp', [('encoding', 'include/SAT-types.hpp Tlit'), ('indices', 'include/SAT-types.hpp indexed_vector')])
prop('P26', 'Decisions follow suggestions and the last synchronisation',
  'A decision left to the solver makes exactly one open variable (with unused variables ignored: one that occurs in a clause) true or false: as suggested since the last decision on it if there was a suggestion, otherwise with its value at the last synchronisation (false if there was none), as long as no conflict occurred in between. Synchronising and suggesting change no value. The literals reported as decided are exactly the decisions that were not undone, and solving afterwards gives the right answer.',
  'histories,inputs,configurations', 'all histories of suggestions, synchronisations and decisions x backtracking strategies', 'No test drives the solver step by step.', 'src/solver/NapSAT.cpp,src/solver/NapSAT-imply.cpp,src/solver/NapSAT.hpp,src/SAT-API.cpp',
  [('choice of the literal', 'src/solver/NapSAT.cpp decide'), ('suggestion', 'src/solver/NapSAT.hpp suggest_polarity'), ('synchronisation', 'src/solver/NapSAT.cpp synchronize')])
exec(open(V + '/tools/properties_more.py').read()) if os.path.exists(V + '/tools/properties_more.py') else None
P.sort(key=lambda p: p['id'])
for p in P: assert len(p['title']) <= 80 and (p['id'] in specs.PROPS) == p['claimed'], p['id']
with open(V + '/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
NOTE = 'Symbolic execution of the LLVM IR of the current sources; z3 decides every branch and assertion, so the claim covers every value of the symbolic inputs within the bounds stated per run in the evidence (sizes, number of operations, vocabularies). Nothing outside the bounds is claimed. Trusted: clang lowering, executor, z3, the library models in stubs/ and runtime/; sampled paths and all counterexamples are replayed on the native sanitizer build.'
M = dict(version=1, setup_cmd='python3 tools/check.py --setup',
  checks=[dict(property=p['id'], quick_cmd=f'python3 tools/check.py {p["id"]} quick', thorough_cmd=f'python3 tools/check.py {p["id"]} thorough', evidence_file=f'evidence/{p["id"]}.json',
    technique='bounded symbolic execution of the real code (LLVM IR) with z3, counterexamples replayed natively', level='model_checking', level_note=NOTE + (' ' + p['note'] if p['note'] else '')) for p in P if p['claimed']],
  not_applicable=[dict(property=p['id'], reason=p['reason']) for p in P if not p['claimed']], notes='See DESIGN.md.')
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1)
