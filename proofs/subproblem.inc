@@item src/prelude.rs struct Variable
@@derive Clone, Copy
@@end
@@item src/prelude.rs struct Decision
@@derive Clone, Copy
@@end
@@item src/prelude.rs struct SubProblem
@@end
@@require src/prelude.rs {{ #[derive(Debug, Clone)] pub struct SubProblem<T> }}

// no contract at all is assumed of the user's ranking
pub trait StateRanking {
    type State;
    fn compare(&self, a: &Self::State, b: &Self::State) -> Ordering;
}

// `#[derive(Clone)]` of SubProblem (checked to be derived): assumed to copy every field
impl<T> Clone for SubProblem<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures sp(r) == sp(*self)
    { unimplemented!() }
}

/// mathematical content of a SubProblem
pub struct SP<T> { pub state: Arc<T>, pub value: int, pub path: Seq<Decision>, pub ub: int }
pub open spec fn sp<T>(n: SubProblem<T>) -> SP<T> {
    SP { state: n.state, value: n.value as int, path: n.path@, ub: n.ub as int }
}

