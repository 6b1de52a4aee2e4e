"""What decides each property: proof units (Verus), Kani units, and the bounded search modes."""
STD = ['vstd specifications of std containers (HashMap, Vec, Option, Arc) are trusted', 'vectors and maps hold fewer than isize::MAX/4 elements (no allocation of that size is possible)']
PROPS = {
 'C10': dict(level='proof', units=['frontier', 'simple'], modes=['front-nodup', 'front-simple'], ms=5000,
   note='Every NoDupFrontier operation meets its contract over the whole abstract view (map state -> sub-problem): pop returns a maximal bound, len is exact, nothing lost or invented, for every sequence of operations. SimpleFrontier likewise over a multiset, assuming the contract of the external binary heap.',
   bounded='random operation sequences on both frontiers against a reference multiset',
   assume=STD + ['states have lawful Eq/Hash (key model) and the ranking compare is a pure function', 'derived Clone of SubProblem yields an equal value']),
 'C11': dict(level='proof', units=['frontier'], modes=['front-nodup'], ms=5000,
   note='push contract: one entry per state, longest path with its value, bound at least every pushed bound, other states untouched; all inputs, all histories.',
   bounded='random operation sequences against a reference map',
   assume=STD + ['states have lawful Eq/Hash (key model)', 'derived Clone of SubProblem yields an equal value']),
 'C13': dict(level='proof', units=['bits'], modes=['bits'], ms=2000,
   note='BitSetIter::new/next contracts: next returns the least remaining element, removes exactly it, returns None only when none remains; all sets of all sizes.',
   bounded='random bit sets against a naive scan', assume=['bitset_fixed::BitSet::buffer yields the words of the set', 'Cloned<slice::Iter<u64>> yields the words in order']),
 'C14': dict(level='proof', units=['lex'], modes=['lex'], ms=2000,
   note='cmp equals the mathematical lexicographic order of the infinite bit strings; partial_cmp and eq agree with it; the laws of a total order are lemmas over that contract.',
   bounded='random pairs and triples', assume=['bitset_fixed::BitSet::buffer yields the words of the set; its == implies equal words', 'Cloned<slice::Iter<u64>> yields the words in order']),
 'C15': dict(level='proof', units=['matrix'], modes=['matrix'], ms=2000,
   note='pos is in bounds and injective on the declared dimensions (nonlinear lemmas); index/index_mut return that cell and a write leaves every other cell unchanged.',
   bounded='random dimensions and write sequences', assume=['rows * columns does not overflow usize (no such allocation exists)']),
 'C17': dict(level='proof', units=[], kani=['gap'], modes=[], ms=0,
   note='Kani over the full domain of both 64-bit bounds, loop-free code, IEEE-exact single precision: a complete proof. Dropped by extraction: nothing.',
   assume=['CBMC models f32 arithmetic exactly (round to nearest even)']),
}

BND = ['bounded stand-in only: random finite dynamic programs (at most 11 variables, 4 values) against a brute-force oracle']
def _b(modes, ms, what): return dict(technique='bounded search against a brute-force oracle (stand-in until the contracts arrive)', level='exploration', units=[], modes=modes, ms=ms, note='BOUNDED, not proved yet: ' + what, bounded=what, assume=BND)
DDA = STD + ['the model meets its documented contracts (rub_ok, merge/relax admissible, next_variable a function of depth): model.inc', 'magnitudes small enough that saturating arithmetic is exact (|costs| * (nvars + 2) < isize::MAX / 8)', 'states have lawful Eq/Hash (key model)', 'max_width >= 1, fewer than 2^31 - 1 variables']
BARA = ['every record in the shared tables was published through the barrier functions (no clear() between: the solver clears a depth only once nothing of that depth is open)', 'reads and writes of the shared tables are atomic per call (RwLock): vp_get, vp_peek, vp_isempty, vp_put']
def _dd(modes, ms, note, bnote=''): return dict(technique='Verus contracts on the extracted source (deductive, Z3)', level='proof', units=['mdd_all', 'mdd_barrier'], modes=modes, ms=ms,
    note='Both diagrams, all functions of with_all.rs and with_barrier.rs, proved against one contract per trait function: ' + note + ' For every model, width, incumbent, cutset type and ranking.' + bnote,
    bounded='single compilations of random finite models against brute force (only to find a failing input)', assume=DDA + BARA)
_SEEN = ' The barrier diagram is specified for every content of the shared records, changing under its feet: a completion may be left to the owner of a record that was read (a strictly deeper state whose recorded threshold promises at least as much).'
PAR = ['threads interact only through the mutex of Critical (mutual exclusion), the condition variable and scoped join: world.inc vp_lock/vp_unlock/vp_wait/vp_spawn/vp_join; no spurious loss of notifications',
       'the search starts from an empty frontier, maximize is called once, thread ids are distinct', 'the diagram and the frontiers are used through the contracts proved in units mdd_all, frontier, simple']
def _sv(modes, ms, note, what): return dict(technique='Verus contracts on the extracted source (deductive, Z3) for the frontier-based solver; bounded search for the barrier-based one', level='other', units=['parallel', 'mdd_all', 'mdd_barrier'], modes=modes, ms=ms,
    note='solver/parallel.rs and mdd/with_all.rs proved: ' + note + ' The barrier-based solver is covered by a bounded stand-in only.', explanation='frontier-based solver: ' + note + ' decided by the verifier for every model and interleaving; barrier-based solver: ' + what + ' (bounded, not counted as proved).', bounded=what, assume=DDA + PAR + BND)
_CMP = 'the barrier diagram with_barrier.rs (20 functions) proved: whatever the shared records contain, each completion that beats the incumbent is bounded by the best value, in the cutset, or promised by a record that was read of a strictly deeper state; each record published promises nothing that is not in the best value, in the cutset, or promised by a record that was read, strictly deeper (dd_sound, cut_out); '
def _sb(modes, ms): return dict(technique='Verus contracts on the extracted source (deductive, Z3) for the diagram; bounded search for whole searches', level='other', units=['mdd_barrier'], modes=modes, ms=ms,
    note='Proved for every single compilation: ' + _CMP + 'BOUNDED: their composition over a whole search of solver/barrier.rs.', explanation=_CMP + 'their composition by solver/barrier.rs over a history of compilations is covered by whole searches of random finite models and by scripted histories against the brute-force optimum (bounded, not counted as proved).',
    bounded='whole searches of the barrier-based solver and scripted histories of compilations sharing records, against the brute-force optimum', assume=DDA + BARA + BND)
PROPS.update({
 'C01': dict(level='proof', units=['parallel', 'mdd_all', 'frontier', 'simple'], modes=['solve-classic-o'], ms=12000,
   note='ParallelSolver (19 functions), the diagram with_all.rs (37) and both frontiers proved. The invariant of the critical section says: unless stopped, every value above the incumbent that some feasible run reaches is promised by a queued or held sub-problem; so when a thread reports Complete, best_value is the optimum (is_opt). Holds after every critical section of every thread, hence under every interleaving; partial correctness (termination: C05).',
   bounded='whole searches against the brute-force optimum (only to find a failing input)', assume=DDA + PAR),
 'C02': _sb(['solve-barrier-o', 'hist-o'], 12000),
 'C03': _sv(['solve-classic-si', 'solve-classic-s', 'solve-barrier-s', 'solve-barrier-si'], 10000, 'after every critical section the stored solution is a complete feasible run worth exactly the incumbent (inv_sol); best_solution returns it, best_value and best_lower_bound its value.', 'whole searches, interrupted or not; the reported solution is replayed'),
 'C04': _sv(['solve-classic-ib', 'solve-barrier-ib', 'solve-classic-b', 'solve-barrier-b'], 10000, 'once stopped, no feasible run is worth more than best_ub, which is at least best_lb, for every point of interruption (inv_bnd); Complete leaves both bounds equal.', 'interrupted and finished searches: bounds against the brute-force optimum'),
 'C05': _sv(['solve-classic-n', 'solve-barrier-n'], 15000, 'no panic in any function (indices, overflow, unwrap), every constructor sizes upper_bounds to the thread count, a sleeping thread always leaves one at work and every end of work wakes all (inv_wake), every loop of the diagram terminates. Not proved: that the worker loops themselves terminate (the argument, strict depth progress of the cutset, is an obligation of C09).', 'searches with 1 to 9 threads through every constructor'),
 'C06': _dd(['dd-all-r', 'dd-barrier-r'], 8000, 'the best value of a relaxed compilation bounds every completion above the known bound (compile contract C06).', _SEEN),
 'C07': _dd(['dd-all-e', 'dd-barrier-e'], 8000, 'exact claims: best value is the optimum when it beats the known bound, else nothing beats it (compile contract C07).', _SEEN),
 'C08': _dd(['dd-all-f', 'dd-barrier-f'], 8000, 'the best path of a restricted/exact/exact-claiming diagram is a real run extending the prefix with the reported value (compile contract C08).'),
 'C09': _dd(['dd-all-c', 'dd-barrier-c'], 8000, 'drained sub-problems are real, strictly deeper, bounded soundly and cover every improving completion (drain_cutset contract C09).', _SEEN),
 'C12': _sb(['solve-barrier-o', 'hist-o'], 12000),
})
NA = {}
# functions of a shared unit a property does not speak about (their rejected obligations are another property's violation); matched on `function | obligation | source line`
_PATHS, _CUT = r'::(_best_path\w*|_best_solution|best_solution) \|', r'::(compute_local_bounds|_drain_cutset|drain_cutset) \|'
_CUTB = r'::(compute_local_bounds_and_theta|try_update_barrier|_drain_cutset|drain_cutset) \|'
SPILL = {
 'mdd_all': {'C01': _PATHS, 'C03': _CUT, 'C04': _PATHS, 'C05': r'\| (postcondition|invariant|assertion)', 'C06': _PATHS + '|' + _CUT + r'|has_exact_best_path \|', 'C07': _PATHS + '|' + _CUT, 'C08': _CUT},
 'mdd_barrier': {'C03': _CUTB, 'C04': _PATHS, 'C05': r'\| (postcondition|invariant|assertion)', 'C02': _PATHS, 'C12': _PATHS, 'C06': _PATHS + '|' + _CUTB + r'|has_exact_best_path \|', 'C07': _PATHS + '|' + _CUTB, 'C08': _CUTB, 'C09': r'::try_update_barrier \|'},
 'parallel': {'C01': r'// C0[345]|best_(upper|lower)_bound \||so_far \||::best_solution \|', 'C03': r'// C0[45]|::(enqueue_cutset|get_workload|notify_node_finished|initialize|custom|new|with_nb_threads|best_(upper|lower)_bound) \|',
   'C04': r'// C0[35]|best_solution', 'C05': r'// C0[34]|::(enqueue_cutset|process_one_node|maybe_update_best|best_\w+) \| (post|inv|assert|precond)'},
}
