// TRUSTED: the frontier handed to the solver meets its contract (proved for NoDupFrontier in unit frontier, for SimpleFrontier in unit simple)
pub trait Frontier: Sized {
    type State;
    spec fn has(&self) -> spec_fn(SP<Self::State>) -> bool;
    spec fn sz(&self) -> nat;
    fn push(&mut self, node: SubProblem<Self::State>)
        ensures push_rel(old(self).has(), final(self).has(), sp(node)), final(self).sz() <= old(self).sz() + 1, final(self).sz() > 0;
    fn pop(&mut self) -> (r: Option<SubProblem<Self::State>>)
        ensures pop_rel(old(self).has(), final(self).has(), match r { Some(n) => Some(sp(n)), None => None }), r is None == (old(self).sz() == 0),
            final(self).sz() == (if r is Some { (old(self).sz() - 1) as nat } else { 0nat });
    fn clear(&mut self) ensures final(self).sz() == 0;
    fn len(&self) -> (r: usize) ensures r == self.sz();
    fn is_empty(&self) -> (r: bool) ensures r == (self.sz() == 0);
    proof fn nothing(&self) ensures (self.sz() == 0) == (forall|q: SP<Self::State>| !#[trigger] (self.has())(q));
}
