#![feature(const_destruct)]
#![allow(warnings)]
@@include common.inc
use vstd::multiset::*;
broadcast use vstd::multiset::group_multiset_axioms;

@@include subproblem.inc
@@include frontier_contract.inc

// compare::Compare, with only the method used
pub trait Compare<T> { fn compare(&self, l: &T, r: &T) -> Ordering; }

@@item src/frontier/mod.rs struct MaxUB
@@end
impl<O: StateRanking> Compare<SubProblem<O::State>> for MaxUB<'_, O> {
@@fn src/frontier/mod.rs {{ Compare < SubProblem < O::State > > for MaxUB }} compare
@@spec
    ensures $p1.ub > $p2.ub ==> ret == Ordering::Greater,
            $p1.ub < $p2.ub ==> ret == Ordering::Less,
@@end
}

// TRUSTED: binary_heap_plus::BinaryHeap: a multiset whose pop yields an element no other one exceeds according to the comparator
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(C)]
pub struct BinaryHeap<T, C> { x: (T, C) }
impl<T, C: Compare<T>> BinaryHeap<T, C> {
    pub uninterp spec fn view(&self) -> Multiset<T>;
    pub uninterp spec fn cmp(&self) -> C;
    #[verifier::external_body]
    pub fn from_vec_cmp(v: Vec<T>, c: C) -> (r: Self) ensures r@ == v@.to_multiset(), r.cmp() == c { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) ensures final(self)@ == old(self)@.insert(x), final(self).cmp() == old(self).cmp() { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>)
        ensures final(self).cmp() == old(self).cmp(),
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && old(self)@.contains(r->0) && final(self)@ == old(self)@.remove(r->0)
                && forall|x: T| #[trigger] old(self)@.contains(x) ==> exists|o: Ordering| o != Ordering::Greater && call_ensures(C::compare, (&old(self).cmp(), &x, &r->0), o),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Multiset::<T>::empty(), final(self).cmp() == old(self).cmp() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}

@@item src/frontier/simple.rs struct SimpleFrontier
@@attr verifier::reject_recursive_types(O)
@@end

impl<'a, O: StateRanking> SimpleFrontier<'a, O> {
    /// the open sub-problems, with multiplicity
    pub open spec fn view(&self) -> Multiset<SubProblem<O::State>> { self.heap@ }

@@fn src/frontier/simple.rs {{impl<'a, O: StateRanking> SimpleFrontier}} new
@@spec
    ensures ret@ =~= Multiset::<SubProblem<O::State>>::empty(),
@@entry
    proof { broadcast use vstd::seq_lib::group_to_multiset_ensures; }
@@end
@@fn src/frontier/simple.rs {{Frontier for SimpleFrontier<'_, O>}} push
@@spec
    ensures final(self)@ == old(self)@.insert($p1),
@@end
@@fn src/frontier/simple.rs {{Frontier for SimpleFrontier<'_, O>}} pop
@@sig? {{ Self::State }} => {{ O::State }}
@@spec
    ensures ret is None <==> old(self)@.len() == 0, ret is None ==> final(self)@ == old(self)@,
        ret is Some ==> old(self)@.contains(ret->0) && final(self)@ == old(self)@.remove(ret->0)
            && forall|x: SubProblem<O::State>| #[trigger] old(self)@.contains(x) ==> x.ub <= ret->0.ub,
@@end
@@fn src/frontier/simple.rs {{Frontier for SimpleFrontier<'_, O>}} clear
@@spec
    ensures final(self)@ =~= Multiset::<SubProblem<O::State>>::empty(),
@@end
@@fn src/frontier/simple.rs {{Frontier for SimpleFrontier<'_, O>}} len
@@spec
    ensures ret == self@.len(),
@@end
@@fn src/prelude.rs {{trait Frontier}} is_empty
@@spec
    ensures ret <==> self@.len() == 0,
@@end

    // ---- the contract of any frontier, as the solvers use it
    pub open spec fn open_set(m: Multiset<SubProblem<O::State>>) -> spec_fn(SP<O::State>) -> bool { |q: SP<O::State>| exists|x: SubProblem<O::State>| #[trigger] m.contains(x) && sp(x) == q }
    proof fn meets_push(m: Multiset<SubProblem<O::State>>, n: SubProblem<O::State>)
        ensures push_rel(Self::open_set(m), Self::open_set(m.insert(n)), sp(n)), m.insert(n).len() == m.len() + 1
    {
        let h0 = Self::open_set(m); let h1 = Self::open_set(m.insert(n));
        assert(m.insert(n).contains(n));
        assert(h1(sp(n)) && dominates(sp(n), sp(n)));
        assert forall|q: SP<O::State>| #[trigger] h0(q) implies exists|r: SP<O::State>| #[trigger] h1(r) && dominates(r, q) by {
            let x = choose|x: SubProblem<O::State>| #[trigger] m.contains(x) && sp(x) == q;
            assert(m.insert(n).contains(x)); assert(h1(q) && dominates(q, q));
        }
        assert forall|r: SP<O::State>| #[trigger] h1(r) implies exists|q: SP<O::State>, b: SP<O::State>| #[trigger] origin(h0, sp(n), q) && #[trigger] origin(h0, sp(n), b) && from2(r, q, b) by {
            let x = choose|x: SubProblem<O::State>| #[trigger] m.insert(n).contains(x) && sp(x) == r;
            if x != n { assert(m.contains(x)); }
            assert(origin(h0, sp(n), r)); assert(from2(r, r, r));
        }
    }
    proof fn meets_pop(m: Multiset<SubProblem<O::State>>, r: SubProblem<O::State>)
        requires m.contains(r), forall|x: SubProblem<O::State>| #[trigger] m.contains(x) ==> x.ub <= r.ub,
        ensures pop_rel(Self::open_set(m), Self::open_set(m.remove(r)), Some(sp(r))), m.remove(r).len() + 1 == m.len()
    {
        let h0 = Self::open_set(m); let h1 = Self::open_set(m.remove(r));
        assert forall|q: SP<O::State>| #[trigger] h1(q) implies h0(q) by {
            let x = choose|x: SubProblem<O::State>| #[trigger] m.remove(r).contains(x) && sp(x) == q;
            assert(m.contains(x));
        }
        assert forall|q: SP<O::State>| #[trigger] h0(q) implies h1(q) || q == sp(r) by {
            let x = choose|x: SubProblem<O::State>| #[trigger] m.contains(x) && sp(x) == q;
            if x != r { assert(m.remove(r).contains(x)); }
        }
    }
}
}
fn main() {}
