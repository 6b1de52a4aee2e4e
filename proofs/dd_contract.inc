// ---------------------------------------------------------------- the cutset as sub-problems
pub open spec fn subs<T>(v: Seq<SubProblem<T>>) -> Seq<SP<T>> { Seq::new(v.len(), |i: int| sp(v[i])) }
/// some completion of q is worth at least x in total
pub open spec fn promises<T>(q: SP<T>, x: int) -> bool { exists|z: int| #[trigger] rch(*q.state, z) && q.value + z >= x }
pub open spec fn has_sub<T>(qs: Seq<SP<T>>, x: int) -> bool { exists|j: int| 0 <= j < qs.len() && promises(#[trigger] qs[j], x) }
/// q extends r by a feasible run, is strictly deeper, and its bound holds for whatever beats lb
pub open spec fn sub_ok<T>(r: SP<T>, lb: int, q: SP<T>) -> bool {
    &&& ext(r, q) && sdepth(*r.state) < sdepth(*q.state) && q.ub < isize::MAX
    &&& forall|y: int| #[trigger] rch(*q.state, y) && q.value + y > lb ==> q.value + y <= q.ub
}
/// the drained cutset: sound sub-problems that together account for every completion of r that beats lb
pub open spec fn cut_out<T>(r: SP<T>, lb: int, qs: Seq<SP<T>>) -> bool {
    &&& forall|j: int| 0 <= j < qs.len() ==> sub_ok(r, lb, #[trigger] qs[j])
    &&& forall|y: int| #[trigger] rch(*r.state, y) && r.value + y > lb ==> has_sub(qs, r.value + y)
}

// ---------------------------------------------------------------- the contract between the solvers and a decision diagram
/// sol is the path of r followed by the decisions of a feasible completion of r worth x in total (each remaining variable decided once)
pub open spec fn sol_by<T>(r: SP<T>, sol: Seq<Decision>, x: int, f: Seq<Decision>) -> bool {
    &&& feas(*r.state, f) && sdepth(*r.state) + f.len() == nvars::<T>() && x == r.value + val(*r.state, f)
    &&& sol.to_multiset() =~= r.path.to_multiset().add(f.to_multiset())
}
pub open spec fn sol_of<T>(r: SP<T>, sol: Seq<Decision>, x: int) -> bool { exists|f: Seq<Decision>| #[trigger] sol_by(r, sol, x, f) }
/// what a diagram was asked to do
pub struct Ask<T> { pub r: SP<T>, pub ty: CompilationType, pub lb: int }
/// C06, C07: bv the best value found, ex the claim of exactness
pub open spec fn dd_sound<T>(k: Ask<T>, bv: Option<int>, ex: bool) -> bool {
    &&& ex || k.ty != CompilationType::Restricted ==> forall|y: int| #[trigger] rch(*k.r.state, y) && k.r.value + y > k.lb ==> bv is Some && bv->0 >= k.r.value + y
    &&& k.ty == CompilationType::Exact ==> ex
}
pub open spec fn dd_pre<T>(r: SP<T>, width: int) -> bool {
    obeys_key_model::<Arc<T>>() && model_ok::<T>() && small::<T>(r.value) && 0 <= sdepth(*r.state) <= nvars::<T>() && width >= 1
}
pub trait DecisionDiagram: Sized {
    type State;
    /// the diagram holds the result of k
    spec fn holds(self, k: Ask<Self::State>) -> bool;
    spec fn wf(self) -> bool;
    spec fn bv(self) -> Option<int>;
    spec fn ex(self) -> bool;
    fn compile<P, R, O>(&mut self, input: &CompilationInput<P, R, O>)
        where P: Problem<State = Self::State>, R: Relaxation<State = P::State>, O: StateRanking<State = P::State>
        requires dd_pre(sp(input.residual), input.max_width as int)
        ensures ({ let k = Ask { r: sp(input.residual), ty: input.comp_type, lb: input.best_lb as int }; final(self).holds(k) && final(self).wf() && dd_sound(k, final(self).bv(), final(self).ex()) });
    fn is_exact(&self) -> (r: bool) ensures r == self.ex();
    fn best_value(&self) -> (r: Option<isize>)
        requires self.wf()
        ensures r is Some == self.bv() is Some, r is Some ==> r->0 == self.bv()->0;
    /// C08
    fn best_solution(&self, Ghost(k): Ghost<Ask<Self::State>>) -> (r: Option<Vec<Decision>>)
        requires self.holds(k)
        ensures r is Some == self.bv() is Some, r is Some && (self.ex() || k.ty != CompilationType::Relaxed) ==> sol_of(k.r, (r->0)@, self.bv()->0);
    /// C09
    fn drain_cutset(&mut self, func: &mut Vec<SubProblem<Self::State>>, Ghost(k): Ghost<Ask<Self::State>>)
        requires old(func)@.len() == 0, old(self).holds(k), k.ty == CompilationType::Relaxed, !old(self).ex()
        ensures cut_out(k.r, k.lb, subs(final(func)@));
}
