// ---------------------------------------------------------------- the cutset as sub-problems
pub open spec fn subs<T>(v: Seq<SubProblem<T>>) -> Seq<SP<T>> { Seq::new(v.len(), |i: int| sp(v[i])) }
/// some completion of q is worth at least x in total
pub open spec fn promises<T>(q: SP<T>, x: int) -> bool { exists|z: int| #[trigger] rch(*q.state, z) && q.value + z >= x }
/// one of the sub-problems, of depth at least d, accounts for x
pub open spec fn subx<T>(qs: Seq<SP<T>>, x: int, d: int, j: int) -> bool { 0 <= j < qs.len() && promises(qs[j], x) && sdepth(*qs[j].state) >= d }
pub open spec fn has_sub<T>(qs: Seq<SP<T>>, x: int, d: int) -> bool { exists|j: int| #[trigger] subx(qs, x, d, j) }
/// q extends r by a feasible run, is strictly deeper, and its bound holds for whatever beats lb and is not left to the owner of a record that was read, deeper than q
pub open spec fn sub_ok<T>(r: SP<T>, lb: int, seen: ISet<Rec<T>>, q: SP<T>) -> bool {
    &&& ext(r, q) && sdepth(*r.state) < sdepth(*q.state) && q.ub < isize::MAX
    &&& forall|y: int| #[trigger] rch(*q.state, y) && q.value + y > lb ==> q.value + y <= q.ub || exc(seen, q.value + y, sdepth(*q.state) + 1)
}
/// what a diagram was asked to do; the records it read (seen), those published before (p0) and after (pubs)
#[verifier::reject_recursive_types(T)]
pub struct Ask<T> { pub r: SP<T>, pub ty: CompilationType, pub lb: int, pub seen: ISet<Rec<T>>, pub p0: ISet<Rec<T>>, pub pubs: ISet<Rec<T>> }
/// a record this compilation published promises x
pub open spec fn said<T>(k: Ask<T>, q: Rec<T>, x: int) -> bool { k.pubs.contains(q) && !k.p0.contains(q) && x > k.lb && exists|z: int| #[trigger] rch(q.s, z) && q.th + z == x }
/// the drained cutset: sound sub-problems that, with the owners of the records read, account for every completion of r that beats lb, and for every record published
pub open spec fn cut_out<T>(k: Ask<T>, qs: Seq<SP<T>>) -> bool {
    &&& forall|j: int| 0 <= j < qs.len() ==> sub_ok(k.r, k.lb, k.seen, #[trigger] qs[j])
    &&& forall|y: int| #[trigger] rch(*k.r.state, y) && k.r.value + y > k.lb ==> has_sub(qs, k.r.value + y, sdepth(*k.r.state) + 1) || exc(k.seen, k.r.value + y, sdepth(*k.r.state) + 1)
    &&& forall|q: Rec<T>, x: int| #[trigger] said(k, q, x) ==> has_sub(qs, x, sdepth(q.s) + (if q.ex { 1int } else { 0int })) || exc(k.seen, x, sdepth(q.s) + 1)
}
// ---------------------------------------------------------------- the contract between the barrier-based solver and its diagram
pub open spec fn sol_by<T>(r: SP<T>, sol: Seq<Decision>, x: int, f: Seq<Decision>) -> bool {
    &&& feas(*r.state, f) && sdepth(*r.state) + f.len() == nvars::<T>() && x == r.value + val(*r.state, f)
    &&& sol.to_multiset() =~= r.path.to_multiset().add(f.to_multiset())
}
pub open spec fn sol_of<T>(r: SP<T>, sol: Seq<Decision>, x: int) -> bool { exists|f: Seq<Decision>| #[trigger] sol_by(r, sol, x, f) }
pub open spec fn atleast(bv: Option<int>, x: int) -> bool { bv is Some && bv->0 >= x }
/// C06, C07: bv the best value found, ex the claim of exactness
pub open spec fn dd_sound<T>(k: Ask<T>, bv: Option<int>, ex: bool) -> bool {
    &&& ex || k.ty != CompilationType::Restricted ==> forall|y: int| #[trigger] rch(*k.r.state, y) && k.r.value + y > k.lb ==> atleast(bv, k.r.value + y) || exc(k.seen, k.r.value + y, sdepth(*k.r.state) + 1)
    &&& ex || bv is None ==> forall|q: Rec<T>, x: int| #[trigger] said(k, q, x) ==> atleast(bv, x) || exc(k.seen, x, sdepth(q.s) + 1)
    &&& k.ty == CompilationType::Exact ==> ex
    &&& k.p0.subset_of(k.pubs) && (k.ty != CompilationType::Relaxed ==> k.pubs == k.p0)
}
pub open spec fn dd_pre<T>(r: SP<T>, width: int, lb: int) -> bool {
    obeys_key_model::<Arc<T>>() && model_ok::<T>() && small::<T>(r.value) && 0 <= sdepth(*r.state) <= nvars::<T>() && width >= 1 && r.path.len() == sdepth(*r.state) && lb < isize::MAX
}
pub trait DecisionDiagram: Sized {
    type State;
    /// the diagram holds the result of k
    spec fn holds(self, k: Ask<Self::State>) -> bool;
    spec fn wf(self) -> bool;
    /// there is a table of records per depth
    spec fn tables(self) -> bool;
    spec fn bv(self) -> Option<int>;
    spec fn ex(self) -> bool;
    fn compile<P, R, O>(&mut self, input: &CompilationInput<P, R, O>, Tracked(l): Tracked<&mut Log<Self::State>>)
        where P: Problem<State = Self::State>, R: Relaxation<State = P::State>, O: StateRanking<State = P::State>
        requires dd_pre(sp(input.residual), input.max_width as int, input.best_lb as int), old(self).tables()
        ensures ({ let k = Ask { r: sp(input.residual), ty: input.comp_type, lb: input.best_lb as int, seen: final(l).seen, p0: old(l).pubs, pubs: final(l).pubs };
            final(self).holds(k) && final(self).wf() && final(self).tables() && dd_sound(k, final(self).bv(), final(self).ex()) }), old(l).seen.subset_of(final(l).seen);
    fn is_exact(&self) -> (r: bool) ensures r == self.ex();
    fn best_value(&self) -> (r: Option<isize>)
        requires self.wf()
        ensures r is Some == self.bv() is Some, r is Some ==> r->0 == self.bv()->0;
    /// C08
    fn best_solution(&self, Ghost(k): Ghost<Ask<Self::State>>) -> (r: Option<Vec<Decision>>)
        requires self.holds(k)
        ensures r is Some == self.bv() is Some, r is Some && (self.ex() || k.ty != CompilationType::Relaxed) ==> sol_of(k.r, (r->0)@, self.bv()->0);
    /// C09
    fn drain_cutset(&mut self, func: &mut Vec<SubProblem<Self::State>>, Ghost(k): Ghost<Ask<Self::State>>)
        requires old(func)@.len() == 0, old(self).holds(k), k.ty == CompilationType::Relaxed, !old(self).ex()
        ensures cut_out(k, subs(final(func)@)), final(self).tables() == old(self).tables();
}
