// ---------------------------------------------------------------- what the solvers rely on, for any frontier
// `has` is membership in the set of open sub-problems
pub open spec fn dominates<T>(a: SP<T>, b: SP<T>) -> bool { a.state == b.state && a.value >= b.value && a.ub >= b.ub }
/// everything open before, or pushed, is still represented; everything open now is one of those (its bound possibly raised to another's)
pub open spec fn push_rel<T>(h0: spec_fn(SP<T>) -> bool, h1: spec_fn(SP<T>) -> bool, n: SP<T>) -> bool {
    &&& exists|r: SP<T>| #[trigger] h1(r) && dominates(r, n)
    &&& forall|q: SP<T>| #[trigger] h0(q) ==> exists|r: SP<T>| #[trigger] h1(r) && dominates(r, q)
    &&& forall|r: SP<T>| #[trigger] h1(r) ==> exists|q: SP<T>, b: SP<T>| #[trigger] origin(h0, n, q) && #[trigger] origin(h0, n, b) && from2(r, q, b)
}
/// r is q with the bound of b, no smaller than its own
pub open spec fn from2<T>(r: SP<T>, q: SP<T>, b: SP<T>) -> bool { q.state == r.state && q.value == r.value && q.path == r.path && r.ub == b.ub && q.ub <= r.ub }
pub open spec fn origin<T>(h0: spec_fn(SP<T>) -> bool, n: SP<T>, q: SP<T>) -> bool { h0(q) || q == n }
pub open spec fn pop_rel<T>(h0: spec_fn(SP<T>) -> bool, h1: spec_fn(SP<T>) -> bool, r: Option<SP<T>>) -> bool {
    &&& r is None ==> forall|q: SP<T>| !#[trigger] h0(q) && !h1(q)
    &&& r is Some ==> {
        &&& h0(r->0)
        &&& forall|q: SP<T>| #[trigger] h0(q) ==> q.ub <= r->0.ub
        &&& forall|q: SP<T>| #[trigger] h1(q) ==> h0(q)
        &&& forall|q: SP<T>| #[trigger] h0(q) ==> h1(q) || q == r->0
    }
}
