import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
     "anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in state],"mechanism":[dict(name=a,where=b) for a,b in mech],"observe_at":list(observe),"hook_needed":hook}})
S="src/"
p("C01","The frontier-based solver finds the true optimum",
 "When a frontier-based parallel search runs to completion, the value it reports is exactly the maximum total objective over all feasible complete decision sequences of the model, and it reports no value exactly when the model has no feasible sequence. This holds for every model whose transition system, relaxation and rough upper bound satisfy the documented contracts, every width policy, cutset type, frontier, ranking and thread count.",
 ["inputs","schedules","configurations"],"every admissible model and relaxation, every width >= 1, cutset type, frontier, ranking, number of threads and thread interleaving",
 "The stable tests never run a solver on a model; no test samples the space of models, widths and interleavings.",
 [S+"solver/parallel.rs",S+"mdd/with_all.rs",S+"frontier/no_dup.rs",S+"frontier/simple.rs"],
 [("root node, restricted then relaxed compilation, cutset enqueued only if above the incumbent","ParallelSolver::process_one_node / maximize"),("search is declared complete only if the fringe is empty and nobody is exploring","ParallelSolver::get_workload"),("nodes popped with bound <= incumbent end the search","ParallelSolver::get_workload")],
 [("best_lb, best_sol, fringe, ongoing, upper_bounds","incumbent and open sub-problems","Critical in src/solver/parallel.rs")],["ParallelSolver::best_value, best_lower_bound, ResolutionStatus"])
p("C02","The barrier-based solver finds the true optimum",
 "When a barrier-based parallel search runs to completion, the value it reports is exactly the maximum total objective over all feasible complete decision sequences of the model, and it reports no value exactly when the model has no feasible sequence. Pruning by previously seen states never changes this answer, for every admissible model, width policy, cutset type, ranking and thread count.",
 ["inputs","schedules","configurations","histories"],"every admissible model, width, cutset type, ranking, thread count, interleaving and history of explored sub-problems",
 "The stable tests never run the barrier solver; wrong dominance pruning only shows when particular sub-problems meet in a particular order.",
 [S+"solver/barrier.rs",S+"mdd/with_barrier.rs"],
 [("explored/threshold bookkeeping per (depth, state)","BarrierParallelSolver::process_one_node, Mdd::compute_thresholds"),("completion only if fringe empty and nobody exploring","BarrierParallelSolver::get_workload")],
 [("barrier","per depth map from state to dominance threshold","Shared in src/solver/barrier.rs"),("best_lb, best_sol, fringe, ongoing","incumbent and open sub-problems","Critical in src/solver/barrier.rs")],["BarrierParallelSolver::best_value, ResolutionStatus"])
p("C03","A reported solution is real",
 "Whenever a solver reports a solution, finished or interrupted, that solution assigns every decision variable exactly once, is feasible for the model, and its total objective (including the initial value) is exactly the reported best value and the reported lower bound.",
 ["inputs","schedules","configurations","crash_points"],"every admissible model, configuration, interleaving and interruption point",
 "No stable test runs a model through a solver and evaluates the reported decisions.",
 [S+"solver/parallel.rs",S+"solver/barrier.rs",S+"mdd/with_all.rs",S+"mdd/with_barrier.rs"],
 [("incumbent updated only from exact best values of restricted or exact relaxed diagrams","maybe_update_best"),("longest path reconstruction","Mdd::best_solution / _best_path")],
 [("best_lb, best_sol","incumbent value and decisions","Critical")],["best_solution, best_value, best_lower_bound"])
p("C04","An interrupted search still brackets the optimum",
 "If a search is stopped before completion, the reported lower bound does not exceed the true optimum and the reported upper bound is not below it, wherever the interruption falls. When the search completes, the two bounds are equal.",
 ["inputs","schedules","crash_points"],"every admissible model, configuration, interleaving and moment of interruption, including before the first node",
 "No test interrupts a search; the failure needs the interruption to land while nodes are being explored or partially enqueued.",
 [S+"solver/parallel.rs",S+"solver/barrier.rs"],
 [("upper bound on abort is the maximum over fringe top, ongoing nodes and incumbent","get_workload / abort paths"),("per-thread upper bounds published before exploration","upper_bounds")],
 [("best_ub, upper_bounds, fringe","global and per-worker bounds","Critical")],["best_lower_bound, best_upper_bound"])
p("C05","Every thread configuration terminates without crashing",
 "For every admissible model and every number of workers >= 1, configured by any of the public constructors and builder methods, a search returns: no worker panics, deadlocks, misses a wake-up or spins forever.",
 ["schedules","configurations","inputs"],"every thread count, order of builder calls and interleaving",
 "No test starts more than zero workers on a real search, and lost wake-ups need a particular interleaving.",
 [S+"solver/parallel.rs",S+"solver/barrier.rs"],
 [("idle workers wait on a condition variable and are notified after each node","get_workload / notify_node_finished"),("with_nb_threads and custom size the per-thread tables","custom, new, with_nb_threads")],
 [("monitor, ongoing, nb_threads, upper_bounds","coordination","Shared / Critical")],["maximize, maximize_with_interrupt"])
p("C06","A relaxed diagram never underestimates a sub-problem",
 "A relaxed compilation of a sub-problem yields a best value that is at least the value of the best feasible completion of that sub-problem that would beat the known lower bound, whatever the width, merge operator (within its contract), pruning by rough bounds and variable order. If it yields no value, the sub-problem contains nothing better than the known lower bound. A diagram that shares recorded thresholds may instead leave a completion to the owner of a threshold it met, of a strictly deeper state that promises at least as much (see C12).",
 ["inputs","configurations"],"every sub-problem of every admissible model, every width, incumbent value, ranking and admissible relaxation",
 "The stable tests contain no relaxed compilation; a lost path shows only for particular merges.",
 [S+"mdd/with_all.rs",S+"mdd/with_barrier.rs"],
 [("layers over the width merge their worst nodes, redirecting every incoming edge","relax"),("nodes pruned only when value + rough bound <= incumbent","compilation loop, estimate"),("longest path kept per node","branch_on")],
 [("nodes, edges, edge lists, layers","the compiled diagram","Mdd")],["DecisionDiagram::best_value, is_exact"])
p("C07","Exactness claims are honest",
 "When a compilation claims to be exact, its best value is the true optimum of the sub-problem if that beats the known lower bound, and otherwise nothing in the sub-problem beats the known lower bound. A diagram that dropped or merged states and whose best path may not be real never claims to be exact. A diagram that shares recorded thresholds may instead leave a completion to the owner of a threshold it met, of a strictly deeper state that promises at least as much (see C12).",
 ["inputs","configurations"],"every sub-problem of every admissible model, every compilation type, width and incumbent",
 "The stable tests only test the flag bits in isolation, never a compiled diagram.",
 [S+"mdd/with_all.rs",S+"mdd/with_barrier.rs",S+"mdd/node_flags.rs"],
 [("exactness cleared when a layer is squashed","restrict / relax / compile"),("best node exactness via flags and exact-path tracking","is_exact, NodeFlags")],
 [("lel, is_exact, best_node","exactness bookkeeping","Mdd")],["DecisionDiagram::is_exact"])
p("C08","Diagram solutions are feasible",
 "Every best solution returned by a restricted or exact compilation (or by a relaxed one that claims exactness) is a feasible completion of the compiled sub-problem containing its prefix, and its total objective equals the reported best value. Hence it never exceeds the true optimum of the sub-problem.",
 ["inputs","configurations"],"every sub-problem of every admissible model, compilation type, width and incumbent",
 "No stable test compiles a model; the edge/path bookkeeping is never exercised on real transitions.",
 [S+"mdd/with_all.rs",S+"mdd/with_barrier.rs"],
 [("best incoming edge tracks the longest path","branch_on"),("path root + decisions along best edges","_best_path / best_solution")],
 [("best_edge, edges, root path","parent pointers","Mdd")],["DecisionDiagram::best_solution, best_value"])
p("C09","The cutset covers everything that can improve",
 "After an inexact relaxed compilation, every feasible completion of the sub-problem that beats the known lower bound passes through some sub-problem of the drained cutset; each of these is a real, strictly deeper sub-problem with its true path and value and an upper bound not below its best completion. Hence replacing the sub-problem by its cutset loses nothing and always makes progress. A diagram that shares recorded thresholds may instead leave a completion to the owner of a threshold it met, of a strictly deeper state that promises at least as much (see C12).",
 ["inputs","configurations"],"every sub-problem of every admissible model, width, incumbent, both cutset types",
 "No stable test drains a cutset; losing a node only shows as a wrong optimum on particular models.",
 [S+"mdd/with_all.rs",S+"mdd/with_barrier.rs"],
 [("last exact layer and frontier cutset computation","compute_last_exact_layer_cutset / compute_frontier_cutset"),("local bounds along reversed edges","compute_local_bounds"),("drain filters by bound and rebuilds sub-problems","drain_cutset")],
 [("cutset, layers, NodeFlags","cutset membership and marking","Mdd")],["DecisionDiagram::drain_cutset"])
p("C10","Frontiers pop best bound first and lose nothing",
 "Every frontier returns open sub-problems in non-increasing order of upper bound (each pop returns a maximum of what is stored), reports its size exactly, returns nothing only when it is empty, and never loses, duplicates or invents a sub-problem other than by the documented merging of equal states. This holds for every sequence of pushes, pops and clears.",
 ["histories","inputs"],"every sequence of operations and every sub-problem content",
 "Tests push a handful of nodes; a heap repair error needs a particular shape of heap and update.",
 [S+"frontier/no_dup.rs",S+"frontier/simple.rs"],
 [("binary heap with position table","NoDupFrontier::push, pop, bubble_up, bubble_down"),("binary heap ordered by bound","SimpleFrontier")],
 [("heap, pos, nodes, recycle_bin, states","indexed heap","NoDupFrontier")],["Frontier::push, pop, clear, len, is_empty"])
p("C11","Duplicate sub-problems are merged safely",
 "The duplicate-free frontier stores at most one sub-problem per state: after pushing several with an equal state, the stored one carries the longest path and value pushed and an upper bound at least as large as each pushed one. Sub-problems with other states are untouched.",
 ["histories","inputs"],"every sequence of operations, any mix of equal and distinct states",
 "Tests sample a few duplicates; keeping the wrong path or a stale bound needs a particular order of values, bounds and heap positions.",
 [S+"frontier/no_dup.rs"],
 [("state to slot map and in-place update with heap repair","NoDupFrontier::push")],
 [("states, nodes","state to slot index","NoDupFrontier")],["Frontier::push, pop"])
p("C12","Barrier pruning never loses an improving solution",
 "If a compilation prunes a state because of information recorded from earlier compilations, then the best completion of the sub-problem through that state does not beat the best solution known or is still represented by another open sub-problem. This holds for any sequence of compiled sub-problems sharing the records.",
 ["histories","inputs","schedules"],"every sequence of compilations sharing one table of thresholds, every admissible model, width and cutset type",
 "The stable tests never build a threshold; an unsafe threshold only matters when a later sub-problem reaches the same state with a particular value.",
 [S+"mdd/with_barrier.rs",S+"solver/barrier.rs"],
 [("thresholds propagated bottom-up from pruned, cutset and terminal nodes","compute_thresholds"),("filter by threshold","filter_with_barrier"),("threshold map update keeps the maximum","BarrierParallelSolver")],
 [("barrier","thresholds by depth and state","Shared")],["BarrierDecisionDiagram compile"])
p("C13","Iterating a bit set yields exactly its elements",
 "Iterating over a bit set yields every element of the set exactly once, in increasing order, and nothing else, for every set size and content.",
 ["inputs"],"every bit set of every size",
 "The tests and doc examples use a few small sets; word boundaries and full words are not covered.",
 [S+"utils.rs"],[("word by word scan","BitSetIter::next")],[("base, iter, buf","cursor","BitSetIter")],["BitSetIter"])
p("C14","The lexicographic bit-set order is a total order",
 "Comparing bit sets lexicographically is a total order consistent with equality: reflexive, antisymmetric, transitive and total, with the ordering and partial ordering always agreeing and equal exactly when both sets have the same content.",
 ["inputs"],"all pairs and triples of bit sets",
 "Tests compare a few pairs; laws over all triples cannot be sampled.",
 [S+"utils.rs"],[("element-wise comparison","LexBitSet cmp / partial_cmp / eq")],[],["LexBitSet Ord, PartialOrd, Eq"])
p("C15","Matrix cells are independent",
 "A matrix returns at each position the last value written at that position, or its initial value, whatever other positions were written; positions inside the declared dimensions are always accessible.",
 ["histories","inputs"],"all dimensions, all sequences of writes and reads",
 "Tests use one or two shapes; an index formula error shows only for particular non-square shapes.",
 [S+"utils.rs"],[("index computation","Matrix::pos, Index, IndexMut")],[("raw, n, m","storage","Matrix")],["Matrix"])
p("C17","The reported optimality gap is sane",
 "The optimality gap reported for a pair of bounds is always a number between 0 and 1 and computing it never crashes. It is 0 exactly when the two bounds coincide, 1 when the bounds have opposite signs (in particular when nothing is known yet), and otherwise their distance relative to the larger magnitude.",
 ["inputs"],"all pairs of bounds, including the extreme values used for unknown bounds",
 "No test computes a gap; the extreme sentinel values and zero bounds are not sampled.",
 [S+"xputils.rs"],[("gap computation","gap")],[],["the GAP column printed by solve_timeout"])
json.dump
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
