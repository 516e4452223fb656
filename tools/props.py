#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts live here so that they stay readable)."""
import json, os
L = "libclingcon/"
def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    r = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        r["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    return r
CONS, PARS, PROP, SOLV, CAPI = L+"src/constraints.cc", L+"src/parsing.cc", L+"src/propagator.cc", L+"src/solver.cc", L+"src/clingcon.cc"
UTIL, SHH = L+"clingcon/util.hh", L+"clingcon/solver.hh"
SOL = ["solve result: answer sets plus assignment of every named variable", "number of times each solution is reported"]
props = [
P("C01", "Linear sum constraints have exactly the intended solutions",
  "Solving a program with &sum constraints enumerates every pair of a stable model and an integer assignment satisfying the constraints exactly once, and nothing else. A constraint in a rule head is enforced whenever the body holds (and only then); a constraint in a rule body is true exactly if the assignment satisfies it. This holds for all relations (<=, >=, <, >, =, !=), coefficients, bounds and domains.",
  ["inputs", "programs"], "all programs over &sum atoms in head, body, negated body and integrity constraints; all coefficients, right-hand sides, relations, domain shapes",
  "The unit tests fix about a hundred hand-picked programs; a wrong rounding, a missing reason literal or a strict/non-strict mixup only shows for particular signs, residues and polarities.",
  [CONS, PARS, SOLV], [("normalize_constraint", PARS), ("SumConstraintStateImpl::propagate", CONS), ("Solver::add_simple", SOLV)], SOL),
P("C02", "Difference constraints mean the corresponding linear inequality",
  "A constraint &diff{x-y} <= k holds in a solution exactly if x-y <= k, whether it occurs in a rule head, in a (negated) body or in an integrity constraint, and programs with difference constraints enumerate exactly the intended solutions, each once.",
  ["inputs", "programs"], "all bounds, positions, systems with positive, zero and negative cycles, bounded and unbounded variables",
  "Only two unit tests mention &diff, both in rule heads.",
  [PARS, CONS], [("parse_constraint<CoVarVec,false>", PARS), ("shift_rule", PARS)], SOL),
P("C03", "Nonlinear sums have exactly the intended solutions",
  "Solving a program with &nsum constraints (one product of two variables plus at most one linear term plus constants) enumerates exactly the pairs of stable model and assignment that satisfy them, each once, in every position a constraint may occur; sums with a shape outside this fragment are rejected with an error rather than misread.",
  ["inputs", "programs"], "all coefficients, signs, element orders, relations, positions and domain signs",
  "The single solving test covers one shape as a fact; signs, conditional and body occurrences and element orders are not sampled.",
  [CONS, PARS, PROP, UTIL], [("NonlinearConstraintState::propagate", CONS), ("add_constraint(NonlinearTermVec)", PARS), ("floordiv/ceildiv", UTIL)], SOL),
P("C04", "Distinct constraints admit exactly pairwise different values",
  "A &distinct constraint whose rule body holds admits exactly the assignments in which all its linear terms have pairwise different values, and constrains nothing otherwise; every such assignment is enumerated exactly once.",
  ["inputs", "programs"], "all numbers of elements, offsets, coefficients, constants, repeated variables, domain shapes and conditional occurrences",
  "Tests use a handful of distinct constraints; propagation over partially assigned, offset or scaled terms depends on the order of domain events.",
  [CONS, PROP], [("DistinctConstraintState::propagate", CONS), ("ConstraintBuilder::add_distinct", PROP)], SOL),
P("C05", "Disjoint constraints admit exactly non-overlapping intervals",
  "A &disjoint constraint whose rule body holds admits exactly the assignments in which the intervals [x,x+d) of its elements x@d with d>0 are pairwise disjoint, and constrains nothing otherwise; every such assignment is enumerated exactly once.",
  ["inputs", "programs"], "all numbers of intervals, lengths including zero, repeated variables, domains and conditional occurrences",
  "Tests check a few instances; the sweep algorithm's bounds depend on event order, ties and interval lengths.",
  [CONS, PROP], [("DisjointConstraintState::propagate", CONS), ("ConstraintBuilder::add_disjoint", PROP)], SOL),
P("C06", "Domains restrict variables to exactly the listed values",
  "A &dom constraint whose rule body holds restricts its variable to exactly the union of the listed values and ranges (nothing if the list is empty), intersected with other domains and the configured minimum and maximum; variables without a domain range over the full configured interval.",
  ["inputs", "programs", "configurations"], "all interval lists (overlapping, adjacent, reversed, empty, unordered), several and conditional domains, all min-int/max-int",
  "Tests use a few small domains; holes, adjacency and conditional domains interact with literals introduced by other constraints.",
  [SOLV, PARS, UTIL], [("Solver::add_dom", SOLV), ("parse_dom", PARS), ("IntervalSet", UTIL)], SOL),
P("C07", "Optimisation finds the optimum and reports true costs",
  "With &minimize or &maximize statements, the search ends with a model whose objective value is the true optimum over all solutions; costs reported with models equal the objective value of the reported assignment (negated for maximize), every non-initial model improves on the previous ones, and a final cost is reported through the statistics.",
  ["programs", "configurations"], "all objectives (several elements, constants, repeated variables, mixed minimize/maximize), all programs and translation settings",
  "Tests check a few objectives; wrong constants, overflow of bounds, or bounds lost on backtracking only show for other programs or search orders.",
  [PROP, CONS], [("Propagator::on_model", PROP), ("MinimizeConstraint", CONS), ("Solver::update_minimize", SOLV)], ["last model", "__csp_cost symbol", "statistics Cost"]),
P("C08", "Options never change the set of solutions",
  "The set of solutions (and the optimum) of a program is the same under every combination of translation, propagation, sorting and heuristic options; options only influence how solutions are found.",
  ["configurations", "programs"], "the product of all option values, for programs mixing all constraint types",
  "Tests run six fixed configurations; most combinations are never executed together.",
  [CAPI, SOLV, CONS, PROP], [("Solver::translate", SOLV), ("Config", L+"clingcon/base.hh"), ("clingcon_configure", CAPI)], SOL),
P("C09", "Incremental solving equals solving the accumulated program",
  "After any sequence of grounding and solving steps, the solutions (or optimum) of a step are those of a fresh solver given everything grounded so far; domains, constraints, objectives and shown variables accumulate and nothing from an earlier solve leaks into a later one.",
  ["histories", "programs"], "all sequences of steps over a pool of program fragments, including steps that solve several times, enumerate partially, or become unsatisfiable",
  "Three multi-shot tests run one fixed sequence each.",
  [PROP, SOLV], [("Propagator::init", PROP), ("Solver::update", SOLV), ("Solver::copy_state", SOLV), ("ConstraintBuilder::prepare_minimize", PROP)], SOL),
P("C10", "Parallel solving returns the same answers under every schedule",
  "When several solver threads share one propagator, every interleaving of their callbacks yields only correct models, together all solutions, and for optimisation an optimal last model whose cost is never below the true optimum; no thread observes another thread's partial state.",
  ["schedules"], "all interleavings of the threads' callbacks up to a preemption bound, with models found and bounds published at any point",
  "Tests run with eight threads but the operating system chooses the schedule; a lost or premature bound update needs a particular one.",
  [PROP, SOLV], [("minimize_bound_", PROP), ("solvers_ per thread", PROP), ("Solver::copy_state", SOLV)], ["models", "costs", "clauses per thread"]),
P("C11", "Every derived clause is implied by the constraints",
  "In every reachable search state, each clause the propagator adds is satisfied by every solution of the constraint problem (for optimisation: by every solution better than the bound in force), whatever order decisions, propagation and backtracking happen in.",
  ["schedules", "histories"], "all decision sequences up to a depth over all literals, including lazily introduced ones, with backjumps and restarts",
  "A test only executes the one search order clasp happens to choose; an unsound reason matters only after the clause is reused elsewhere.",
  [CONS, SOLV], [("reasons built in propagate", CONS), ("propagate_variables_", SOLV), ("calculate_reason_", CONS)], ["clauses passed to the solver"]),
P("C12", "Backtracking leaves no trace in the search state",
  "After any sequence of decisions, conflicts and backjumps, the propagator behaves as if only the current partial assignment had ever been made: it derives no conflict in a consistent state because of an undone decision, and it misses no violation that a fresh propagator would detect.",
  ["histories"], "all decide/backtrack histories up to a depth, followed by complete exploration",
  "Incremental bounds, inactive marks and removed watches are restored on undo; tests only see histories clasp produces and check-state only a subset of the state.",
  [SOLV, CONS], [("Level::undo", SOLV), ("mark_inactive / removed watches", SOLV), ("SumConstraintStateImpl::undo", CONS)], ["solutions accepted after the history", "clauses added after the history"]),
P("C13", "Total assignments are accepted only if they are solutions",
  "A total assignment passes the final check only if every variable has exactly one value and all active constraints hold for those values; otherwise the propagator adds a clause or a literal, so search always progresses and terminates on bounded domains.",
  ["histories", "schedules"], "all total assignments over the currently existing literals reachable under any decision order",
  "Tests observe final models only, on the search orders that happen to occur.",
  [SOLV, PROP, CONS], [("Solver::check_full", SOLV), ("Propagator::check", PROP)], ["state after the total check", "reported values"]),
P("C14", "Order literals stay consistent with values",
  "The table of order literals of a variable answers every lookup (exact, next, previous, range) like an ordered map from values to literals under any sequence of insertions, removals, resets and copies, no matter which internal representation is in use.",
  ["histories", "inputs"], "all operation sequences up to a depth over small and large value ranges, crossing every representation switch",
  "The varstate tests run a few fixed sequences; representation switches at particular densities and the queries around them are not covered.",
  [SHH, SOLV], [("VarState", SHH)], ["results of lookups"]),
P("C15", "Numbers near the limits give exact results or an error",
  "For coefficients, bounds, domains and term values anywhere in the accepted integer range, solving yields the exact intended solutions or reports an overflow/validity error; it never silently wraps around, crashes or returns a wrong solution.",
  ["inputs"], "all combinations of boundary values for coefficients, right-hand sides, domain bounds, arithmetic operators and objectives",
  "Tests probe safe-int templates with few values; end-to-end extremes are not exercised.",
  [UTIL, PARS, CONS, L+"clingcon/base.hh"], [("safe_add/safe_mul/...", UTIL), ("check_valid_value", L+"clingcon/base.hh"), ("simplify", PARS)], SOL + ["errors"]),
P("C16", "Interval sets behave like sets of integers",
  "Under every sequence of adding, extending, copying and querying intervals, an interval set contains exactly the integers a plain set would, and iterates maximal disjoint intervals in order.",
  ["histories", "inputs"], "all operation sequences up to a depth over all intervals of a small universe and its boundaries",
  "The unit test runs a fixed list of operations.",
  [UTIL], [("IntervalSet", UTIL)], ["contains, intersects, iteration"]),
P("C17", "Arithmetic terms denote their mathematical value",
  "Arithmetic in theory terms (unary minus, +, -, *, /, \\, **, nesting, constants on either side, repeated variables, variables on the right-hand side) has its mathematical value, with / and \\ rounding toward zero, and syntactic variants of one linear constraint have the same solutions.",
  ["inputs"], "all expression trees up to a depth over small constants and variables, in all term positions",
  "Parsing tests compare fixed strings; operator nesting, sign and cancellation combinations are not covered.",
  [PARS], [("evaluate", PARS), ("parse_constraint_elem", PARS), ("simplify", PARS)], SOL),
P("C18", "Elements have multiset semantics and shifting is neutral",
  "Elements of theory atoms contribute once per ground instance of their condition (equal terms from different elements or conditions are not merged), and moving the first suitable body atom of an integrity constraint into the head does not change solutions.",
  ["programs", "configurations"], "all small combinations of elements, conditions, anonymous and shared variables, with and without shifting, for every theory atom",
  "Tests compare a few rewritten programs as text.",
  [PARS], [("TheoryRewriter::rewrite_tuple", PARS), ("shift_rule", PARS)], SOL),
P("C19", "Options take effect as documented, per thread and per theory",
  "Every documented option value is accepted and sets exactly the documented parameter, for all threads or the given one independent of option order; values outside the documented range are rejected, and configuring one theory object never affects another.",
  ["configurations", "histories"], "all option/value/thread combinations, all orders of options, all sequences of creating and registering theories",
  "No test covers the option parser or several theories in one process.",
  [CAPI, L+"clingcon/base.hh"], [("clingcon_configure", CAPI), ("clingcon_register_options / clingcon_validate_options", CAPI), ("clingcon_register", CAPI)], ["effective configuration", "errors"]),
P("C20", "The C interface exposes exactly the named variables",
  "Iterating an assignment visits each named variable exactly once and nothing else; symbol and index lookups are inverse to each other, indices stay stable across steps, and values match the reported model, even if auxiliary variables were introduced.",
  ["programs", "histories"], "all programs and step sequences, including those that create auxiliary variables, all threads",
  "No unit test uses the C interface.",
  [CAPI, PROP], [("clingcon_assignment_next", CAPI), ("clingcon_lookup_symbol / clingcon_get_symbol", CAPI)], ["iteration order and content", "lookups"]),
P("C21", "Models are extended by exactly the shown assignment and cost",
  "Each model is extended by one __csp(variable,value) symbol per shown variable with its value, where &show directives select variables by name or signature (all if there is none), and by __csp_cost exactly if an objective is handled by the theory; showing never changes the solutions over the variables of the rest of the program.",
  ["programs"], "all combinations of &show elements, variable names of every symbol type, and objectives",
  "Tests check show statements for a couple of programs through the C++ interface only.",
  [PROP, PARS], [("Propagator::shown", PROP), ("parse_show", PARS), ("Propagator::on_model", PROP)], ["theory symbols of the model"]),
P("C22", "Statistics describe the step and accumulate over steps",
  "After every solve, step statistics describe that step only (constraints, variables, threads, cost of its last model if it has one) and accumulated statistics are the sum over all steps (cost: the latest), with per-thread entries present.",
  ["histories", "configurations"], "all step sequences over a pool of fragments and thread counts",
  "No test checks accumulated statistics.",
  [PROP, L+"clingcon/base.hh"], [("Propagator::on_statistics", PROP), ("Statistics::accu/reset", L+"clingcon/base.hh")], ["user_step and user_accu statistics"]),
P("C23", "Assumptions and externals act only on their own solve call",
  "Solving under assumptions or with given external values yields exactly the solutions of the program extended by them, and later calls without them are unaffected, including bounds learned for objectives.",
  ["histories"], "all sequences of solve calls with all assumption sets and external assignments over a pool of programs",
  "One test solves one program under a few assumptions.",
  [PROP, SOLV], [("Solver::update", SOLV), ("Propagator::init", PROP), ("update_minimize", PROP)], SOL),
P("C24", "Malformed theory atoms are rejected with an error",
  "A theory atom outside the documented language (wrong arity, missing guard, non-numeric bounds, variable products in linear sums, non-variable domains, conditions that are not decided by grounding, and so on) makes grounding or solving fail with an error; it is never silently ignored or misread and never crashes the process.",
  ["inputs"], "all atoms obtained from a grammar of well-formed atoms by one or two ill-formed replacements",
  "Tests check a few syntax errors on strings.",
  [PARS, CAPI], [("check_syntax", PARS), ("throw_syntax_error", PARS)], ["error status and message", "solutions"]),
P("C25", "The command-line program prints exactly the solutions",
  "The clingcon application prints for every solution its atoms, its assignment and (for objectives) its cost, the verdict matches, and options given on the command line reach the solver; objective programs search for the optimum by default.",
  ["programs", "configurations"], "all programs of a bounded family and option settings",
  "The application is only compiled by the test suite, never run.",
  ["app/main.cc", CAPI], [("ClingconApp", "app/main.cc"), ("clingcon_prepare", CAPI)], ["standard output and exit code"]),
P("C26", "Translation is exact at every limit",
  "Replacing constraints by clauses, weight constraints or solver objectives keeps the solutions, the optimum and their multiplicity, for every value of the translation limits and ratios, including those where only some constraints fit.",
  ["configurations", "programs"], "all limits from zero until everything is translated, for every constraint type alone and combined",
  "Tests use limits that are either zero or far larger than needed.",
  [CONS, SOLV], [("SumConstraintState::translate", CONS), ("weight_translate_ / clause translation", CONS), ("DistinctConstraintState::translate", CONS), ("MinimizeConstraintState::translate", CONS)], SOL),
P("C27", "The Python package agrees with the C interface",
  "Using clingcon from Python (theory class and application) yields the same solutions, values, costs and errors as the C interface.",
  ["programs"], "all programs of a bounded family",
  "The Python sources are only parsed by the test suite.",
  ["libpyclingcon/clingcon/__init__.py", "libpyclingcon/clingcon/__main__.py", "libpyclingcon/_clingcon.c"], [("ClingconTheory", "libpyclingcon/clingcon/__init__.py"), ("ClingconApp", "libpyclingcon/clingcon/__main__.py")], ["assignments seen from Python", "application output"]),
P("C28", "Constraints of different kinds combine as a conjunction",
  "A program that mixes sums, differences, products, distinct and disjoint constraints and domains, as facts, under conditions or reified, has exactly the solutions that satisfy all active constraints at once, each enumerated once; in particular facts decided during preprocessing never decide the truth of a conditional constraint's body, and translating one constraint never changes the meaning of another.",
  ["programs", "configurations"], "all pairs (and triples) of constraints of all kinds in all roles, including pairs where one constraint fixes, implies or contradicts the other",
  "Tests solve programs with mostly one kind of constraint; interactions between preprocessing, translation and the remaining constraints need particular combinations.",
  [CONS, SOLV, PROP, L+"clingcon/base.hh"], [("Solver::simplify / translate", SOLV), ("InitClauseCreator::commit", L+"clingcon/base.hh"), ("Propagator::init", PROP)], SOL),
P("C29", "What one search leaves behind never affects a later solving step",
  "In multi-shot solving, literals, clauses, watches and bounds that arise during the search of one step either remain valid or are gone in the next step: whatever decisions, backjumps, restarts and interruptions happened, with however many threads per step, every later step accepts exactly the solutions of the program accumulated so far, adds only implied clauses, restores its state on backtracking and finds the optimum.",
  ["histories", "schedules", "programs"], "all decision/backjump/restart prefixes in one step followed by complete later steps, all cuts of a program into steps, numbers of threads per step and early stops",
  "Multi-shot tests run a few fixed step sequences with the search order of clasp.",
  [PROP, SOLV], [("Propagator::init", PROP), ("Solver::update / copy_state", SOLV), ("Solver::get_literal / update_litmap_", SOLV)], ["solutions accepted per step", "clauses added", "bounds before and after undo"]),
P("C30", "Propagation finds what the bounds imply before search continues",
  "Before each decision, propagation is complete for linear constraints kept by the propagator: every active sum (or difference) is bounds consistent, no active constraint of any type whose variables all have a single value is violated, and a reified linear constraint decided by the current bounds has a truth value. So search never branches on values the bounds already exclude.",
  ["histories", "programs"], "all decision/backjump/restart prefixes up to a depth over a pool of programs and all small sums in all roles",
  "Missed propagation changes no solution, so tests that compare solutions cannot see it; it only makes search explode.",
  [CONS, SOLV], [("SumConstraintStateImpl::propagate", CONS), ("DistinctConstraintState::propagate", CONS), ("Solver::check", SOLV)], ["bounds of all variables before each decision"]),
P("C31", "Theory atoms respect answer set semantics in any rule",
  "With theory atoms in rule bodies (plain, negated or doubly negated) and heads, the answer sets are exactly the stable models obtained by fixing the truth values of body atoms from the assignment, with head atoms acting as requirements; constraints never support themselves, found atoms stay founded through positive recursion, negation, choice and disjunction, and every answer set comes with each of its assignments exactly once.",
  ["programs", "configurations"], "all programs of one, two and three normal, choice, disjunctive and constraint rules over Boolean atoms and linear constraints in every body and head position",
  "Tests use a handful of fixed rules; interactions of recursion, strict semantics and simplification of constraint literals need particular combinations.",
  [PROP, SOLV, PARS], [("transform / simplify of theory atoms", PARS), ("Propagator::init", PROP), ("Solver::get_literal", SOLV)], SOL),
P("C32", "Reasoning modes of the solver stay exact with constraints",
  "Weak constraints, unsatisfiable-core and branch-and-bound optimization, optimal-model enumeration, brave and cautious consequences, projection, conditional #show, #edge and #heuristic statements and assumption cores give the results that follow from the solutions of the program with its constraints: right verdict, costs, optimum, consequences, projections, acyclicity and genuinely unsatisfiable cores.",
  ["programs", "configurations"], "all programs of a pool combined with every statement and reasoning mode over bodies with theory atoms, under all translation configurations",
  "Tests enumerate models only.",
  [PROP, SOLV, CAPI], [("Propagator::check / extend_model", PROP), ("Solver::translate", SOLV), ("minimize statements produced by translation", CONS)], ["verdict", "models and costs", "consequences", "unsatisfiable core"]),
P("C33", "Theory objects in one process are independent of each other",
  "Several theory objects (and their controls) can live in one process, with different options and programs, in any interleaving of creation, grounding, solving and destruction, even if one runs while another reports a model; each behaves as if it were alone.",
  ["histories"], "all interleavings of the life cycles of two theory objects over a pool of programs and configurations, and nesting of one run in a model callback of the other",
  "Every test uses one theory object at a time.",
  [CAPI, PROP, SOLV], [("clingcon_create / clingcon_destroy", CAPI), ("class Propagator", PROP)], ["solutions and costs of each object"]),
P("C34", "No API history makes the library touch invalid memory or leak",
  "Whatever sequence of documented calls a user makes (any programs, options, multi-shot histories, assumptions, backjumps, copies of state to new solver threads, interruptions, errors thrown by callbacks or by malformed input), the library never reads freed, uninitialised or out-of-bounds memory, has no undefined arithmetic, and everything it allocated is released when the theory is destroyed.",
  ["histories", "programs", "schedules"], "all life cycles with an error at any phase, all decision/backjump prefixes, all step sequences and all malformed atoms of bounded families, in a build where every memory access is monitored and fresh or stale memory is poisoned",
  "Reading freed or uninitialised memory usually yields the right answer in a test; the release build of the tests monitors nothing.",
  [SOLV, CONS, PROP, CAPI], [("Solver::update / remove_var_watch", SOLV), ("Propagator (solver storage, constraint ownership)", PROP), ("clingcon_destroy", CAPI)], ["memory accesses", "live allocations"]),
P("C35", "Other propagators and theories can share the control",
  "A control with clingcon can also run other propagators (adding clauses in any way the interface allows, introducing literals, deciding) and contain atoms of other theories, registered before or after clingcon and over several solve calls; the solutions are exactly those of the constraints that also satisfy what the others enforce, each once, and costs and optima stay right.",
  ["programs", "histories", "configurations"], "all clauses over the atoms of pool programs enforced in nine ways by a second propagator, before or after clingcon, with and without another theory",
  "Tests never register a second propagator or use atoms of another theory.",
  [PROP, SOLV, CAPI], [("Propagator::init / propagate / check / undo", PROP), ("clingcon_register", CAPI), ("parse (ignores other atoms)", PARS)], SOL),
P("C36", "Starting and stopping searches in any way is safe",
  "Searches can be started with callbacks, by yielding models, asynchronously or both, and ended at any point by cancelling, closing the handle, returning false, interrupting or running to the end. Every reported or yielded model is a solution with its values readable while it is current, none is repeated, costs improve, and later searches (also after extending the program and by threads that never got to run in earlier steps) are complete.",
  ["histories", "schedules", "programs"], "all ways of starting and ending one or two searches after different numbers of models over the pool and all configurations",
  "Tests run searches to the end or stop one thread after a model.",
  [PROP, SOLV, CAPI], [("Propagator::init", PROP), ("Solver::add_watches / copy_state", SOLV), ("clingcon_on_model", CAPI)], ["solutions", "values of the current model", "verdicts"]),
P("C37", "Programs and statements without constraints keep their meaning",
  "Rewriting passes every statement without clingcon's theory atoms on unchanged (up to clingo's own unpooling), in order and nothing else, whatever other language constructs or theories it uses, and solving a program without constraints gives the answer sets, costs, optima and consequences clingo gives alone.",
  ["inputs", "programs"], "all single statements and ordered pairs of statements covering the input language, and all pairs (triples) of plain rules",
  "Tests rewrite a few statements with theory atoms.",
  [PARS, CAPI], [("transform", PARS), ("shift_rule", PARS), ("clingcon_rewrite_ast", CAPI)], ["rewritten statements", "answer sets and costs"]),
P("C38", "Rewriting gives the same result whatever built the syntax tree",
  "The result of rewriting a statement depends only on the statement: syntax trees that were parsed, copied, unpooled, printed and parsed again, built or changed by other transformers (theory atom names as symbolic terms), or rewritten before by another theory lead to the same statements (or the same rejection); the given tree stays unchanged, rewriting it again gives the same again, and the rewritten programs have exactly the intended solutions.",
  ["inputs", "programs"], "all theory atom names, element shapes, relations and rule positions in all forms of their syntax trees; pool programs in all forms solved to exhaustion",
  "Tests rewrite statements right after parsing them from text.",
  [PARS, CAPI], [("transform", PARS), ("tag_terms", PARS), ("shift_rule", PARS), ("clingcon_rewrite_ast", CAPI)], ["rewritten statements", "given syntax trees", "solutions"]),
P("C39", "Runs are reproducible whatever memory the process happens to get",
  "With one thread and the same input and options, everything observable of a run - the models and their assignments in the order they are found, the verdicts, the values, bounds and statistics of every step, or the error message - is the same in every run: it does not depend on where memory is allocated, in which order freed memory is used again, or on what fresh memory contains.",
  ["programs", "configurations"], "all programs of a pool over all constraint kinds, all configurations of a list, three steps each, in all memory layouts of the allocator (ascending, descending, scattered, first in first out; four fill patterns) and with the system's",
  "A test runs once with whatever memory it gets and compares sets of models.",
  [SOLV, PROP, CONS], [("Solver::simplify, todo queues", SOLV), ("Propagator::translate_", PROP), ("order of watches and of domain events", SOLV)], ["models in order", "verdicts", "statistics", "errors"]),
P("C40", "Problems modelled in the documented idioms get exactly their solutions",
  "Encodings of combinatorial problems in the style of the shipped examples - flow shops with difference constraints, sums, disjoint and domain constraints or an objective, queens, golomb rulers, cryptarithms, graph colouring, magic squares and sequences, factorisation, planning, knapsacks, all-interval series - have exactly the solutions (or the optimum) of the problem, each reported once, for every instance, every equivalent encoding and under all options.",
  ["inputs", "programs", "configurations"], "all instances of bounded size of each problem, in up to seven encodings each, under up to nine configurations",
  "Tests solve a single instance of one puzzle; in larger networks constraints of different kinds interact through many shared variables.",
  [CONS, PROP, SOLV, PARS], [("propagation of networks of constraints", CONS), ("Propagator::translate_", PROP), ("lazy order literals", SOLV)], SOL),
]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
