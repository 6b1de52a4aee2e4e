// TRUSTED: the diagram meets the contract DecisionDiagram (every function of it is proved in unit mdd_all)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct All<T> { x: Option<T> }
impl<T: Eq + PartialEq + Hash + Clone> All<T> {
    #[verifier::external_body]
    pub fn new(cutset_type: CutsetType) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn get_explored(&self) -> usize { unimplemented!() }
}
impl<T: Eq + PartialEq + Hash + Clone> DecisionDiagram for All<T> {
    type State = T;
    uninterp spec fn holds(self, k: Ask<T>) -> bool;
    uninterp spec fn wf(self) -> bool;
    uninterp spec fn bv(self) -> Option<int>;
    uninterp spec fn ex(self) -> bool;
    #[verifier::external_body]
    fn compile<P: Problem<State = T>, R: Relaxation<State = P::State>, O: StateRanking<State = P::State>>(&mut self, input: &CompilationInput<P, R, O>) { unimplemented!() }
    #[verifier::external_body]
    fn is_exact(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn best_value(&self) -> Option<isize> { unimplemented!() }
    #[verifier::external_body]
    fn best_solution(&self, Ghost(k): Ghost<Ask<T>>) -> Option<Vec<Decision>> { unimplemented!() }
    #[verifier::external_body]
    fn drain_cutset(&mut self, func: &mut Vec<SubProblem<T>>, Ghost(k): Ghost<Ask<T>>) { unimplemented!() }
}
pub trait WidthHeuristic<State> {
    // TRUSTED: width heuristics answer at least 1
    fn max_width(&self, state: &State) -> (r: usize) ensures r >= 1;
}
// TRUSTED: num_cpus::get() >= 1
#[verifier::external_body]
pub fn vp_cpus() -> (r: usize) ensures r >= 1 { unimplemented!() }
