#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": hook}})

PRED = "query/predicates/"; EXT = "query/extensions/"; LOG = "query/logop/"

p("C01", "Core predicates are true exactly where their definitions hold",
  "For every decision tree, every dimension and every mix of constant, variable and guarded-constant arguments, the encodings of subsumption (each defined feature of e1 has the same value in e2), less-or-equal level (e1 has at least as many undefined features as e2) and node (e equals the partial instance of some tree node) are satisfiable under a valuation of their declared variables exactly when the definition holds for that valuation. The same holds for the negation of each. A constant form and a variable form of the same predicate therefore always agree.",
  ["inputs"], "all trees (no feature repeated on a path), dimensions, partial instances, argument-kind combinations",
  "The truth-table tests use a few dimension-3/4 rows (and need a solver that is absent here); they cannot range over all trees, dimensions and valuations.",
  [PRED+"subsumption", PRED+"lel", PRED+"isnode"],
  [("counting clauses", PRED+"lel/utils.go"), ("reachability clauses", PRED+"isnode/var.go"), ("path walk", PRED+"isnode/const.go"), ("implication clauses", PRED+"subsumption/var_var.go")],
  ["Encoding of each predicate, its clauses solved under fixed valuations"])

p("C02", "Classification formulas are true exactly where their definitions hold",
  "For every decision tree and argument kind, the encodings of all-positive/all-negative (every completion of e gets the given class), determinant feature set (for every e' with the same undefined features as e, all completions of e' get one common class), full (no undefined feature) and consistent (no feature defined differently in e1 and e2) are satisfiable under a valuation of their declared variables exactly when the definition holds for that valuation, and so is the negation of each exactly when it does not. This includes trees that are a single leaf, one-class trees and instances that leave tested features undefined.",
  ["inputs"], "all trees, partial instances, classes, argument kinds",
  "Tests fix one or two small trees and a list of rows; the guarantee is over every tree shape, node order and valuation.",
  [EXT+"allcomp", EXT+"dfs", EXT+"full", EXT+"cons"],
  [("reachability with undefined features", EXT+"allcomp/var.go"), ("tree walk", EXT+"allcomp/const.go"), ("leaf pair comparison", EXT+"dfs/const.go"), ("leaf enumeration", EXT+"dfs/utils.go")],
  ["Encoding of each component, its clauses solved under fixed valuations"])

p("C03", "Hamming and preference comparisons are exact in every argument form",
  "For every dimension and every constant/variable form, less-or-equal-Hamming-distance (e1, e2, e3 all have no undefined feature and dist(e1,e2) <= dist(e1,e3)) and higher-or-equal-preference-rank (at the first listed feature that is defined in exactly one of e1 and e2 it is defined in e1, or there is no such feature) are satisfiable under a valuation of their declared variables exactly when the definition holds for that valuation, and so is the negation of each exactly when it does not. This includes distances 0 and the full dimension, repeated arguments, and preference lists that are empty, partial, or long.",
  ["inputs"], "all dimensions, full and partial instances, preference sequences, the 8 LEH and 4 HEPR argument forms",
  "Tests use a dozen rows of dimension 3 or 4, and never the boundary distances with a partial third argument nor an empty preference on a variable.",
  [EXT+"leh", EXT+"hepr"],
  [("distance counting clauses", EXT+"leh/utils.go"), ("preference chain clauses", EXT+"hepr/var_var.go"), ("boundary shortcuts", EXT+"leh/const_const_var.go")],
  ["Encoding of each component, its clauses solved under fixed valuations"])

p("C04", "Boolean structure is exact: NOT, AND and OR at any nesting",
  "For every quantifier-free combination of components with negation, conjunction and disjunction, at any depth, the encoding is satisfiable under a valuation of the declared variables exactly when the Boolean combination of the components' truth values is true for that valuation. Neither negation nor disjunction loses, adds or mixes up constraints of their operands, including operands that are trivially true or trivially false.",
  ["programs", "inputs"], "all formula trees over the component library, all valuations",
  "Logop tests use trivially true/false operands and compare clause lists; interaction of auxiliary variables across nested negations is never evaluated.",
  [LOG+"not.go", LOG+"and.go", LOG+"or.go", "cnf/cnf.go"],
  [("definition-based negation", "cnf/cnf.go"), ("top variable bookkeeping after negation", LOG+"or.go"), ("semantic versus consistency clauses", "cnf/cnf.go")],
  ["Encoding of whole formulas, solved under fixed valuations"])

p("C05", "Guarded FOR ALL ranges over each node of the tree exactly once",
  "A guarded universal quantifier is true exactly when its body is true for the partial instance of every node of the tree: its body is instantiated once per node, with exactly that node's partial instance, whatever the tree's shape, depth, or node order in the model, and also when such quantifiers are nested or negated. An occurrence of the bound constant outside the quantifier is not affected by it, and of two nested quantifiers over one constant name the inner one binds it.",
  ["inputs", "programs"], "all trees and node orders, all bodies, nesting depths",
  "Tests use three- and five-node trees; missing, repeated or stale node values only show on other shapes and in nested use.",
  [LOG+"forallguarded.go", "query/scoper.go"],
  [("depth first node iterator", LOG+"forallguarded.go"), ("scope value lookup", "query/scoper.go")],
  ["constants seen by a recording body", "Encoding solved against the reference evaluation"])

p("C06", "A declared variable ranges over exactly the partial instances",
  "The valuations a declared variable can take in an otherwise unconstrained query are exactly the 3^dim partial instances: each is possible, and nothing that gives a feature no value or two values is. Differently named variables are independent; a variable declared inside a guarded quantifier takes an independent value for every node of the enclosing guarded quantifiers, while one declared outside keeps a single value inside; declaring the same variable again in the same scope adds or removes nothing.",
  ["programs", "inputs"], "all sets of declared variables, names, dimensions, trees and quantifier nestings",
  "The unit tests compare clause lists of one-feature variables and one alternation; none enumerates the models or checks independence over larger scope stacks.",
  [LOG+"with_var.go", "query/scoper.go", "query/varmanager.go"],
  [("one-and-only-one clauses", LOG+"with_var.go"), ("scoped variable names", "query/scoper.go")],
  ["projected model enumeration of the encoding", "Encoding of quantifier alternations against the reference"])

p("C07", "Components that share auxiliary notions never interfere",
  "When several components of one query use the same user-supplied naming functions for auxiliary notions (reachability, undefined-feature count, Hamming distance, feature equality, preference rank), as the documentation asks, the query still means the Boolean combination of the individual components: at every valuation it is satisfiable exactly when that combination holds. This covers components with common variables, constants of equal value, different preference sequences, and guarded constants.",
  ["programs", "inputs"], "all pairs and small sets of components over shared variables with one set of naming functions",
  "Every test encodes one component per query, so no test can see two components fixing the same auxiliary variable differently.",
  [EXT+"leh", EXT+"hepr", EXT+"allcomp", PRED+"isnode", PRED+"lel"],
  [("auxiliary variable naming functions", EXT+"leh/const_var_const.go"), ("preference identifier", EXT+"hepr/util.go"), ("reach variables", PRED+"isnode/var.go")],
  ["Encoding of combined formulas solved under fixed valuations"])

p("C08", "CNF algebra: negation, conjunction and appending are exact",
  "For every formula built by the CNF operations, negation keeps the consistency clauses and holds at exactly the assignments of the original variables where those hold and the semantic clauses do not; conjunction and appending hold exactly where all parts do. Variables introduced by negation are new: larger than every variable of the formula and than the bound passed by the caller; the reported top variable is never below a variable in use; the trivially-true/false reports are never wrong, and are made for a formula without clauses and for one with an empty clause.",
  ["inputs", "histories"], "all clause sets (empty, unit, tautological, repeated literals) and all sequences of operations",
  "The tests compare exact clause lists for five hand-picked formulas; semantic equivalence over all assignments and operation sequences is not examined.",
  ["cnf/cnf.go"],
  [("definition-based negation", "cnf/cnf.go"), ("top variable maintenance", "cnf/cnf.go")],
  ["Clauses, TopV, TriviallyTrue, TriviallyFalse after each operation"])

p("C09", "Formulas are values: deriving one never changes another",
  "No operation on a CNF formula changes the content of any formula obtained earlier, nor of the clauses the caller built it from: two formulas derived from a common one stay independent, in any order of derivation, and the predefined true and false formulas never change.",
  ["histories"], "all sequences of operations in which a formula is used more than once",
  "Tests use each formula once; sharing of backing memory needs particular growth histories to show.",
  ["cnf/cnf.go"],
  [("copying on append", "cnf/cnf.go"), ("negation on a copy", "cnf/cnf.go")],
  ["snapshots of every formula's clauses and serialisation, compared after later operations"])

p("C10", "DIMACS output is well formed and complete",
  "For every formula, the byte and file serialisations are identical and are a valid DIMACS CNF: one header whose clause count is exact and whose variable count is not exceeded, then every clause of the formula, once per occurrence, terminated by 0. Writing replaces any earlier content of the file, and a write that could not store the whole formula is reported as an error.",
  ["inputs", "fault_sequences"], "all formulas up to hundreds of thousands of clauses, pre-existing targets, write failures at any size",
  "Tests serialise one six-clause formula to a new file on a healthy disk.",
  ["cnf/cnf.go"],
  [("header and clause writer", "cnf/cnf.go")],
  ["bytes returned", "file content", "error returned under device-full and size-limited writes"])

p("C11", "Query evaluation returns the query's truth value",
  "For every query, tree and correct SAT solver, evaluating an atom returns true exactly when the query (or, for an atom marked negated, its negation) is satisfiable by some assignment of instances to its variables; conjunctions and disjunctions of evaluations, nested arbitrarily, return the corresponding Boolean value, including when empty. Error-free evaluation never depends on which satisfying valuation the solver happens to report.",
  ["programs", "inputs"], "all closed queries with quantifier alternation, combinator trees, trees, solver choices",
  "The compute tests evaluate two constant atoms of dimension 1 and do not even run here (no solver).",
  ["compute/boolcomb.go", "compute/solver.go"],
  [("atom evaluation", "compute/boolcomb.go"), ("exit code interpretation", "compute/solver.go")],
  ["result of Sat with in-process and executable solvers against a brute-force evaluator"])

p("C12", "Optimal computation is sound, complete and optimal",
  "For every formula, strict partial order, tree and correct SAT solver, the optimum computation reports a value exactly when some partial instance satisfies the formula; the value it returns has every feature set, satisfies the formula, and no other satisfying instance is strictly better in the order. This holds whichever satisfying valuations the solver picks.",
  ["inputs", "programs", "schedules"], "all formulas and strict orders (subsumption, level, Hamming closeness, preference, in both directions), trees, solver choices",
  "A single dimension-3 example is tested, with one solver's choice of models, and it does not run here.",
  ["compute/optimum.go", "compute/solver.go"],
  [("improvement loop", "compute/optimum.go"), ("value decoding", "compute/solver.go")],
  ["output of ComputeOptim against a brute-force optimum set"])

p("C13", "Optimisation makes a short, strictly improving, exactly counted run",
  "During an optimum computation every candidate found after the first is strictly better than the one before it, the search stops right after the first failed improvement, and the number of solver calls reported equals the calls actually made. With an order whose chains are at most linear in the dimension the calls are at most dimension + 2, so the search always ends.",
  ["histories", "schedules"], "all runs of the optimiser over formulas, orders and adversarial solver choices (including ones that improve as slowly as possible)",
  "Tests look only at the final value of one run and never at the call history.",
  ["compute/optimum.go"],
  [("improvement loop and step counter", "compute/optimum.go")],
  ["recorded history of solver calls and candidate values at the solver interface"])

p("C14", "The solver's verdict and model are decoded faithfully",
  "When the executable given to the solver wrapper reports satisfiable or unsatisfiable by the standard exit codes, that is the verdict; the file it is given is the query's formula; the executable run is the one at the given path. After a satisfiable verdict the values read back for declared variables are exactly the instances in the reported model, in request order and as often as requested, for every legal layout of the standard value lines (line splits, very long lines, extra spaces, comments, any literal order), and stay available until the next satisfiable verdict.",
  ["inputs", "histories"], "all models, dimensions, value-line layouts, call histories",
  "Only one solver's layout and one-feature queries would be exercised, and no such test can run here.",
  ["compute/solver.go"],
  [("value line parser", "compute/solver.go"), ("exit code mapping", "compute/solver.go")],
  ["Values and Step results with a scripted solver executable"])

p("C15", "A failure is reported as an error, never as an answer",
  "If the solver crashes, is killed, exits with a non-standard code, is missing or not executable, prints an unusable or incomplete model, or if temporary storage is unavailable or full, at any call of an evaluation or optimum computation, or if encoding a sub-query fails, the operation returns an error (or the correct answer if the fault had no effect on it) and never a wrong or made-up answer. Errors of sub-queries remain identifiable through every operator.",
  ["fault_sequences"], "every fault kind at every solver call index, in evaluation, combinators and optimisation; encoding errors at every position of a query",
  "No test injects any fault beyond nil contexts and wrong dimensions.",
  ["compute/optimum.go", "compute/solver.go", "compute/boolcomb.go", "query/logop"],
  [("error propagation", "compute/optimum.go"), ("exit code check", "compute/solver.go"), ("error wrapping", LOG+"and.go")],
  ["returned error and result under injected faults"])

p("C16", "Nothing is left behind after any operation",
  "Evaluation, stepping and optimum computation leave no temporary files, open descriptors, processes or goroutines behind, whether they succeed, find the query unsatisfiable, or fail at any point (encoding error, solver failure, full storage), and write nothing outside the temporary directory.",
  ["fault_sequences", "histories"], "all outcomes and fault points, repeated many times in one process",
  "Tests never inspect the temporary directory or the process state.",
  ["compute/solver.go", "compute/optimum.go"],
  [("deferred removal of the formula file", "compute/solver.go"), ("deferred removal", "compute/optimum.go")],
  ["listing of the temporary and working directories, descriptor and goroutine counts before and after"])

p("C17", "Answers do not depend on what a context was used for before",
  "Evaluating a query or computing an optimum gives the same answer on a context that has already been used for any sequence of evaluations and computations, including failed ones and ones with the same variable names, as on a new context for the same tree. A context that has been reset behaves like a new one.",
  ["histories"], "all sequences of evaluations, optimisations, failing encodings and resets on one context and one solver",
  "Each test makes one new context for one query.",
  ["query/instances.go", "query/context.go", "query/scoper.go", "query/varmanager.go", "compute/boolcomb.go", "compute/optimum.go"],
  [("context reset", "query/context.go"), ("reset before solving", "compute/optimum.go"), ("declared-once check", LOG+"with_var.go")],
  ["answers on a long-lived context against answers on new contexts and against brute force"])

p("C18", "Solver variables are positive, stable, unique and never reused",
  "In a context, each (name, index, value) triple has one positive number that never changes until a reset, different triples have different numbers, existence queries answer exactly for triples already numbered, and a new number is above every number handed out or reserved before. The top value is the largest number handed out or reserved and a reservation never lowers it.",
  ["histories"], "all sequences of numbering, reservation, existence and reset operations, with names and indices of any form",
  "No test targets the variable manager; encodings in tests use a few small indices.",
  ["query/varmanager.go", "query/instances.go"],
  [("triple to number map", "query/varmanager.go")],
  ["results of each context operation against a reference model"])

p("C19", "Scopes are injective, well nested and always restored",
  "For any stacks of scopes, the scoped names of two variables are equal only if the variables are the same and were declared under the same scope targets and positions; a variable declared in a scope disappears with it; a guarded constant takes the value set for its scope and any other constant is returned unchanged; removing or setting a scope on an empty stack is an error. Encoding any query leaves the context's scope stack as it found it, whether it succeeds or fails at any point inside.",
  ["histories", "programs"], "all scope operation sequences, and all queries with errors injected at any node instantiation",
  "Tests push at most one scope and never look at the stack after an error.",
  ["query/scoper.go", LOG+"forallguarded.go"],
  [("scope stack", "query/scoper.go"), ("deferred scope removal", LOG+"forallguarded.go")],
  ["results of scope operations against a reference model", "scope stack of a recording context after encodings"])

p("C20", "Independent computations can run concurrently",
  "Evaluations and computations that each have their own context and solver can run at the same time, on shared queries and trees, without data races, and give the answers they give when run alone.",
  ["schedules"], "all interleavings of independent encodings, evaluations and optimum computations in one process",
  "No test starts a goroutine or is run under the race detector.",
  ["cnf/cnf.go", "query", "compute"],
  [("absence of shared mutable state", "cnf/cnf.go"), ("unique temporary files", "compute/solver.go")],
  ["race detector reports", "answers of concurrent runs against sequential ones"])

p("C21", "Malformed input is rejected with an error",
  "A constant of the wrong dimension in any position, a preference list with an out-of-range or duplicate feature, a missing context, naming function or sub-query, an empty model, and a model with a node that a component has to follow to a feature or child outside the model are each reported as an error by the component that needs them, in every argument form and at every depth of a query; they never cause a crash, a hang or a satisfiability answer.",
  ["inputs"], "all components and argument forms times all malformations, standalone and nested, at all positions",
  "Tests check one wrong dimension and nil context per form; empty models, bad nodes and bad sub-queries deep in a query are not covered.",
  ["query/instances.go", EXT+"hepr/util.go", EXT+"dfs/utils.go", EXT+"allcomp/const.go", PRED+"isnode/var.go", LOG+"forallguarded.go"],
  [("dimension validation", "query/instances.go"), ("node validation", LOG+"forallguarded.go"), ("preference validation", EXT+"hepr/util.go")],
  ["error or panic of Encoding and Sat"])

p("C22", "Encoding is deterministic and leaves its inputs untouched",
  "Encoding the same query on new contexts of the same tree gives byte-identical formulas every time, however many other queries were encoded in between, and neither encoding, evaluating nor optimising changes the caller's query, constants, preference lists or tree.",
  ["histories", "inputs"], "all queries, encoded repeatedly and interleaved on several contexts",
  "Each test encodes a query once and never looks at its inputs afterwards.",
  ["query/logop", "query/predicates", "query/extensions", "cnf/cnf.go"],
  [("ordered clause generation", "cnf/cnf.go")],
  ["serialised formulas of repeated encodings", "deep snapshots of inputs"])

p("C23", "Encodings stay polynomial in the tree, dimension and query",
  "The number of clauses, literals and variables of an encoding grows at most polynomially (degree at most four) in the dimension, in the number of tree nodes and in the number of sub-queries at a fixed guarded-quantifier depth; negation, disjunction and repeated use of a component never multiply their operands out.",
  ["inputs", "programs"], "all components and operators on growing dimensions, trees and query sizes",
  "Tests use dimensions up to 4 and one or two operators, where any growth rate looks alike.",
  ["cnf/cnf.go", EXT+"leh/utils.go", PRED+"lel/utils.go", EXT+"dfs/var.go"],
  [("definition-based negation", "cnf/cnf.go"), ("quadratic counters", PRED+"lel/utils.go")],
  ["measured sizes of encodings on doubling sequences"])

p("C24", "Partial-instance operations agree with their definitions",
  "For every constant, the full test, undefined-feature count, value equality, string form and dimension validation agree with the feature values themselves: full means no undefined feature, equality means same length and same values, the string form is one character (_, 0 or 1) per feature and distinguishes different values, the all-undefined constant has the requested dimension, and validation fails exactly when some constant has another dimension.",
  ["inputs"], "all feature vectors and lists of constants",
  "No test calls these operations directly.",
  ["query/instances.go"],
  [("constant operations", "query/instances.go")],
  ["results of the operations against definitions"])

p("C25", "The documented examples compute what they claim",
  "With any correct SAT solver, the shipped computation example reports a sufficient reason of its instance that no strictly smaller partial instance is, the shipped evaluation example prints the truth value of its query, and the README's usage pattern evaluates to whether some instance that is not full has only completions of the one class asked for, and reads such an instance back.",
  ["configurations", "inputs"], "all solver choices of models; the README pattern on all trees",
  "The examples have no tests and are only compiled, never run.",
  ["examples/computation.go", "examples/evaluation.go", "README.md"],
  [("example programs", "examples/computation.go")],
  ["standard output of the examples run against a solver that returns random models"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
