SEM = "reference-semantics monitor over random and exhaustive small inputs"
SEMN = ("Every encoding observed is solved by the harness's own SAT solver under fixed valuations and compared with a brute-force reference "
        "evaluator written from the definitions; unsatisfiable disagreements are confirmed by a second solver before an alarm. Sampled, not exhaustive, "
        "beyond the smallest dimensions. Trusts the reference evaluator and assumes well-formed trees and documented naming rules.")
for id in ["C01", "C02", "C03", "C04", "C07"]:
    c(id, SEM, SEMN)
c("C05", "recording-body monitor plus reference-semantics monitor", "Bodies record every constant they are given; counts must equal the multiset of node instances. " + SEMN)
c("C06", "projected model enumeration monitor", "Enumerates the models of encodings projected on declared variables and compares with the set of partial instances. " + SEMN)
c("C11", "answer monitor with in-process and executable solvers", "Answers of Sat compared with brute-force truth on random closed queries and combinator trees. " + SEMN)
c("C12", "optimality monitor against brute-force optimum sets", "ComputeOptim runs with solvers that choose models adversarially; every output compared with the brute-force optimum set. Sampled inputs.")
c("C13", "call-history monitor at the solver interface", "Recorded Step/Values histories checked for strict improvement, stop after first failure and exact call count. Sampled inputs, adversarial solver choices.")
c("C17", "history-independence monitor (old context against new and reference)", "Random histories of evaluations, optimisations, failures and resets on one context; each answer compared with a new context's and the reference's.")

c("C08", "algebraic monitor of formula values (propositional equivalence by solving)", "Random sequences of formula operations; after each step the formula is solved under every assignment of the original variables and compared with the set of assignments the definition of the operation gives. Sampled formulas.")
c("C09", "aliasing monitor (snapshots of every live formula value after every operation)", "All formula values, clause lists and caller slices of a case are snapshotted and compared after each operation, on chains and diamonds of derivations. Sampled derivation histories.")
c("C10", "serialisation monitor with write faults", "Every serialisation is parsed strictly and compared with the clauses; writes are made to fail by size limits, bad paths and full devices, and must say so. Fault points are sampled over sizes.", "fault_enumeration")
c("C14", "scripted-solver monitor (recorded formula files, verdicts and models)", "Executables that record what they were given and what they answered, in random legal layouts; Step and Values are compared with the record. Sampled histories and layouts.")
c("C15", "fault-injection monitor with known answers", "One fault per operation, every kind at every call index reached; errors or right answers only, and error identity through operators. Wrong verdicts by a standard exit code are not judged.", "fault_enumeration")
c("C16", "residue monitor (directories, descriptors, processes, goroutines) under faults", "State of the process and its scratch directories compared before and after operations of every outcome, and watched during them. Files removed again between two observations are not seen.", "fault_enumeration")
c("C18", "reference-model monitor of context operations", "Every result of random operation histories is compared with a map-based model of the numbering. Sampled histories.")
c("C19", "reference-model monitor of scopes, and a recording context around encodings", "Scope operation histories against a stack model; encodings of random queries with errors injected at every component, with the context's scope operations recorded. Sampled.")
c("C20", "Go race detector plus answer monitor on concurrent workloads", "Shared queries, trees and formula values used by 2 to 8 goroutines with own contexts and solvers, built with -race; answers compared with sequential ones. Says nothing of schedules not observed.")
c("C21", "malformed-input monitor over all components and argument forms", "Every component and argument form with every malformation, alone and at random depth; an error is required, a crash or answer is an alarm. The enumeration is over kinds; values are sampled.", "fault_enumeration")
c("C22", "determinism and input-snapshot monitor", "Repeated encodings compared byte by byte, interleaved with other work; deep snapshots of queries, constants, preferences and trees compared after every operation. Sampled.")
c("C23", "size monitor on doubling families", "Clauses, literals and variables of encodings measured on doubling dimension, tree and query size; a factor above 16 per doubling is an alarm. Growth beyond the measured sizes is not observed.")
c("C24", "definition monitor of constant operations", "Random and border constants compared with the definitions. Sampled.")
c("C25", "end-to-end monitor of the example programs and the README pattern", "The examples are built with an entry point added by an overlay and run against solvers that return random models; printed answers compared with brute force. The README query on random trees.")
