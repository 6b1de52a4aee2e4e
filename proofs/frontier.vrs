#![feature(const_destruct)]
#![allow(warnings)]
@@include common.inc
use std::collections::HashMap;
use std::collections::hash_map::Entry::{Occupied, Vacant};
use std::hash::Hash;
use vstd::std_specs::hash::*;

broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::map::group_map_lemmas, vstd::set::group_set_lemmas};

// hasher type replaced (FxHasher -> RandomState); the map itself is vstd's specified std HashMap
pub type FxHashMap<K, V> = HashMap<K, V>;

@@include subproblem.inc
@@include frontier_contract.inc
@@item src/frontier/mod.rs struct MaxUB
@@end

impl<O: StateRanking> MaxUB<'_, O> {
@@fn src/frontier/mod.rs {{ Compare < SubProblem < O::State > > for MaxUB }} compare
@@spec
    ensures $p1.ub > $p2.ub ==> ret == Ordering::Greater,
            $p1.ub < $p2.ub ==> ret == Ordering::Less,
@@end
}

@@item src/frontier/no_dup.rs struct NodeId
@@derive Clone, Copy
@@end
@@item src/frontier/no_dup.rs enum Action
@@end
use Action::{DoNothing, BubbleUp, BubbleDown};
@@item src/frontier/no_dup.rs struct NoDupFrontier
@@end

impl<'a, O> NoDupFrontier<'a, O>
where
    O: StateRanking,
    O::State: Eq + Hash + Clone,
{
    pub open spec fn at(&self, i: int) -> SubProblem<O::State> { self.nodes@[self.heap@[i].0 as int] }
    pub open spec fn ub_at(&self, i: int) -> int { self.at(i).ub as int }
    pub open spec fn par(i: int) -> int { (i - 1) / 2 }

    /// `id` sits in the heap, where its back pointer says
    pub open spec fn inheap(&self, id: NodeId) -> bool {
        id.0 < self.nodes@.len() && self.pos@[id.0 as int] < self.heap@.len() && self.heap@[self.pos@[id.0 as int] as int] == id
    }
    pub open spec fn ids_ok(&self) -> bool {
        &&& self.heap@.len() <= self.nodes@.len()
        &&& self.nodes@.len() <= isize::MAX / 4
        &&& forall|i: int| 0 <= i < self.heap@.len() ==> (#[trigger] self.heap@[i]).0 < self.nodes@.len()
    }
    /// heap, back pointers, payload, recycle bin and (heap -> states) agree
    pub open spec fn core(&self) -> bool {
        &&& obeys_key_model::<Arc<O::State>>()
        &&& self.nodes@.len() == self.pos@.len()
        &&& self.ids_ok()
        &&& forall|i: int| 0 <= i < self.heap@.len() ==> self.pos@[(#[trigger] self.heap@[i]).0 as int] == i
        &&& forall|i: int| 0 <= i < self.recycle_bin@.len() ==> (#[trigger] self.recycle_bin@[i]).0 < self.nodes@.len()
        &&& forall|i: int, j: int| 0 <= i < self.recycle_bin@.len() && 0 <= j < self.heap@.len() ==> (#[trigger] self.recycle_bin@[i]).0 != (#[trigger] self.heap@[j]).0
        &&& forall|i: int, j: int| 0 <= i < j < self.recycle_bin@.len() ==> (#[trigger] self.recycle_bin@[i]).0 != (#[trigger] self.recycle_bin@[j]).0
        &&& forall|i: int| 0 <= i < self.heap@.len() ==> self.states@.contains_key(self.nodes@[(#[trigger] self.heap@[i]).0 as int].state) && self.states@[self.nodes@[self.heap@[i].0 as int].state] == self.heap@[i]
    }
    /// every known state is in the heap
    pub open spec fn cover(&self) -> bool {
        &&& forall|k: Arc<O::State>| #[trigger] self.states@.contains_key(k) ==> self.inheap(self.states@[k]) && self.nodes@[self.states@[k].0 as int].state == k
        &&& self.states@.dom().len() == self.heap@.len()
    }
    pub open spec fn shape(&self) -> bool { self.core() && self.cover() }
    /// heap order except, possibly, between `x` and its parent, with `x`'s kids below x's parent
    pub open spec fn up_order(&self, x: int) -> bool {
        &&& forall|i: int| 0 < i < self.heap@.len() && i != x ==> self.ub_at(Self::par(i)) >= #[trigger] self.ub_at(i)
        &&& forall|i: int| 0 < i < self.heap@.len() && Self::par(i) == x && x > 0 ==> self.ub_at(Self::par(x)) >= #[trigger] self.ub_at(i)
    }
    /// heap order except, possibly, between `x` and its kids, with x's kids below x's parent
    pub open spec fn down_order(&self, x: int) -> bool {
        &&& forall|i: int| 0 < i < self.heap@.len() && Self::par(i) != x ==> self.ub_at(Self::par(i)) >= #[trigger] self.ub_at(i)
        &&& forall|i: int| 0 < i < self.heap@.len() && Self::par(i) == x && x > 0 ==> self.ub_at(Self::par(x)) >= #[trigger] self.ub_at(i)
    }
    pub open spec fn order(&self) -> bool {
        forall|i: int| 0 < i < self.heap@.len() ==> self.ub_at(Self::par(i)) >= #[trigger] self.ub_at(i)
    }
    pub open spec fn wf(&self) -> bool { self.shape() && self.order() }

    /// the abstract content: one sub-problem per state
    pub open spec fn view(&self) -> Map<Arc<O::State>, SP<O::State>> {
        self.states@.map_values(|id: NodeId| sp(self.nodes@[id.0 as int]))
    }
    /// bubbling moves ids around in the heap, and touches nothing else
    pub open spec fn same_content(&self, o: &Self) -> bool {
        self.nodes@ == o.nodes@ && self.states@ == o.states@ && self.recycle_bin@ == o.recycle_bin@ && self.heap@.len() == o.heap@.len()
            && forall|id: NodeId| self.inheap(id) == #[trigger] o.inheap(id)
    }

    /// exchanging two heap slots (and their back pointers) keeps the shape
    proof fn swap_shape(a: Self, b: Self, x: int, y: int)
        requires a.core(), 0 <= x < a.heap@.len(), 0 <= y < a.heap@.len(), x != y,
            b.nodes@ == a.nodes@, b.states@ == a.states@, b.recycle_bin@ == a.recycle_bin@,
            b.heap@ =~= a.heap@.update(x, a.heap@[y]).update(y, a.heap@[x]),
            b.pos@ =~= a.pos@.update(a.heap@[y].0 as int, x as usize).update(a.heap@[x].0 as int, y as usize),
        ensures b.core(), b.same_content(&a)
    {
        let ax = a.heap@[x]; let ay = a.heap@[y];
        assert forall|i: int| 0 <= i < b.heap@.len() implies (#[trigger] b.heap@[i]).0 < b.nodes@.len() && b.pos@[b.heap@[i].0 as int] == i by {
            let _ = a.heap@[i];
        }
        assert forall|i: int, j: int| 0 <= i < b.recycle_bin@.len() && 0 <= j < b.heap@.len() implies (#[trigger] b.recycle_bin@[i]).0 != (#[trigger] b.heap@[j]).0 by {
            let _ = a.heap@[j];
        }
    }
    /// one step up
    proof fn swap_up(a: Self, b: Self, x: int)
        requires a.up_order(x), b.nodes@ == a.nodes@, 0 < x < a.heap@.len(),
            b.heap@ =~= a.heap@.update(x, a.heap@[Self::par(x)]).update(Self::par(x), a.heap@[x]),
            a.ub_at(x) >= a.ub_at(Self::par(x)),
        ensures b.up_order(Self::par(x))
    {
        let y = Self::par(x);
        assert forall|i: int| 0 < i < b.heap@.len() && i != y implies b.ub_at(Self::par(i)) >= #[trigger] b.ub_at(i) by {
            let _ = a.ub_at(i); let _ = a.ub_at(y); let _ = a.ub_at(Self::par(i)); let _ = a.ub_at(x);
        }
        assert forall|i: int| 0 < i < b.heap@.len() && Self::par(i) == y && y > 0 implies b.ub_at(Self::par(y)) >= #[trigger] b.ub_at(i) by {
            let _ = a.ub_at(i); let _ = a.ub_at(y); let _ = a.ub_at(Self::par(y)); let _ = a.ub_at(x);
        }
    }
    /// one step down, to the greatest kid `k`
    proof fn swap_down(a: Self, b: Self, x: int, k: int)
        requires a.down_order(x), b.nodes@ == a.nodes@, 0 <= x < k < a.heap@.len(), Self::par(k) == x,
            b.heap@ =~= a.heap@.update(x, a.heap@[k]).update(k, a.heap@[x]),
            a.ub_at(k) >= a.ub_at(x),
            forall|i: int| 0 < i < a.heap@.len() && Self::par(i) == x ==> a.ub_at(k) >= #[trigger] a.ub_at(i),
        ensures b.down_order(k)
    {
        assert forall|i: int| 0 < i < b.heap@.len() && Self::par(i) != k implies b.ub_at(Self::par(i)) >= #[trigger] b.ub_at(i) by {
            let _ = a.ub_at(i); let _ = a.ub_at(x); let _ = a.ub_at(Self::par(i)); let _ = a.ub_at(k);
        }
        assert forall|i: int| 0 < i < b.heap@.len() && Self::par(i) == k && k > 0 implies b.ub_at(Self::par(k)) >= #[trigger] b.ub_at(i) by {
            let _ = a.ub_at(i); let _ = a.ub_at(x); let _ = a.ub_at(k);
        }
    }
    proof fn end_up(&self, x: int)
        requires self.up_order(x), 0 <= x < self.heap@.len(), x == 0 || self.ub_at(Self::par(x)) >= self.ub_at(x)
        ensures self.order()
    {}
    proof fn end_down(&self, x: int)
        requires self.down_order(x), 0 <= x < self.heap@.len(),
            forall|i: int| 0 < i < self.heap@.len() && Self::par(i) == x ==> self.ub_at(x) >= #[trigger] self.ub_at(i),
        ensures self.order()
    {}

    /// raising one node's bound in place, or appending one slot, leaves only its link to its parent in doubt
    proof fn raised(a: Self, b: Self, x: int)
        requires a.core(), a.order(), b.ids_ok(), 0 <= x < b.heap@.len(), a.heap@.len() <= b.heap@.len(),
            forall|i: int| 0 <= i < a.heap@.len() && i != x ==> a.ub_at(i) == #[trigger] b.ub_at(i),
            b.heap@.len() == a.heap@.len() ==> b.ub_at(x) >= a.ub_at(x),
            b.heap@.len() > a.heap@.len() ==> x == a.heap@.len() && b.heap@.len() == x + 1,
        ensures b.up_order(x),
            b.heap@.len() == a.heap@.len() && b.ub_at(x) == a.ub_at(x) ==> b.order()
    {
        assert forall|i: int| 0 < i < b.heap@.len() && i != x implies b.ub_at(Self::par(i)) >= #[trigger] b.ub_at(i) by {
            let _ = a.ub_at(i); let _ = a.ub_at(Self::par(i)); let _ = b.ub_at(Self::par(i));
        }
        assert forall|i: int| 0 < i < b.heap@.len() && Self::par(i) == x && x > 0 implies b.ub_at(Self::par(x)) >= #[trigger] b.ub_at(i) by {
            let _ = a.ub_at(i); let _ = a.ub_at(x); let _ = a.ub_at(Self::par(x)); let _ = b.ub_at(Self::par(x));
        }
        if b.heap@.len() == a.heap@.len() && b.ub_at(x) == a.ub_at(x) {
            assert forall|i: int| 0 < i < b.heap@.len() implies b.ub_at(Self::par(i)) >= #[trigger] b.ub_at(i) by {
                let _ = a.ub_at(i); let _ = a.ub_at(Self::par(i)); let _ = b.ub_at(Self::par(i));
            }
        }
    }
    /// the last slot moved to the root
    proof fn lowered(a: Self, b: Self)
        requires a.ids_ok(), a.order(), b.nodes@ == a.nodes@, a.heap@.len() > 1,
            b.heap@ =~= a.heap@.update(0, a.heap@.last()).drop_last(),
        ensures b.down_order(0)
    {
        assert forall|i: int| 0 < i < b.heap@.len() && Self::par(i) != 0 implies b.ub_at(Self::par(i)) >= #[trigger] b.ub_at(i) by {
            let _ = a.ub_at(i); let _ = a.ub_at(Self::par(i));
        }
    }

    /// distinct ids below nodes.len() cannot outnumber the nodes
    proof fn pigeon(b: Self)
        requires forall|i: int| 0 <= i < b.heap@.len() ==> (#[trigger] b.heap@[i]).0 < b.nodes@.len() && b.pos@[b.heap@[i].0 as int] == i,
        ensures b.heap@.len() <= b.nodes@.len()
    {
        let ids = b.heap@.map_values(|id: NodeId| id.0 as int);
        assert(ids.no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < ids.len() && 0 <= j < ids.len() && i != j implies ids[i] != ids[j] by {
                let _ = b.heap@[i]; let _ = b.heap@[j];
            }
        }
        ids.unique_seq_to_set();
        let all = vstd::set_lib::set_int_range(0, b.nodes@.len() as int);
        vstd::set_lib::lemma_int_range(0, b.nodes@.len() as int);
        assert(ids.to_set().subset_of(all)) by {
            assert forall|v: int| ids.to_set().contains(v) implies all.contains(v) by {
                let i = choose|i: int| 0 <= i < ids.len() && ids[i] == v;
                let _ = b.heap@[i];
            }
        }
        vstd::set_lib::lemma_len_subset(ids.to_set(), all);
    }

    /// the root is a node of greatest bound among everything the frontier holds
    proof fn root_is_first(&self)
        requires self.wf(), self.heap@.len() > 0
        ensures self.inheap(self.heap@[0]), self.view().contains_key(self.at(0).state),
            self.view()[self.at(0).state] == sp(self.at(0)),
            forall|s: Arc<O::State>| #[trigger] self.view().contains_key(s) ==> self.view()[s].ub <= self.ub_at(0)
    {
        let _ = self.heap@[0];
        assert forall|s: Arc<O::State>| #[trigger] self.view().contains_key(s) implies self.view()[s].ub <= self.ub_at(0) by {
            assert(self.states@.contains_key(s));
            let id = self.states@[s];
            assert(self.inheap(id));
            self.root_is_max(self.pos@[id.0 as int] as int);
        }
    }

    /// the root was taken out of the heap, the last slot (if any) took its place
    proof fn pop_mid(a: Self, b: Self)
        requires a.wf(), a.heap@.len() > 0,
            b.nodes@ == a.nodes@, b.states@ == a.states@, b.recycle_bin@ == a.recycle_bin@,
            b.heap@ =~= (if a.heap@.len() == 1 { Seq::empty() } else { a.heap@.update(0, a.heap@.last()).drop_last() }),
            b.pos@ =~= (if a.heap@.len() == 1 { a.pos@ } else { a.pos@.update(a.heap@.last().0 as int, 0) }),
        ensures b.core(), b.heap@.len() > 0 ==> b.down_order(0) && b.inheap(b.heap@[0]) && b.pos@[b.heap@[0].0 as int] == 0,
            b.heap@.len() == 0 ==> b.order(),
            !b.inheap(a.heap@[0]),
            forall|id: NodeId| id != a.heap@[0] ==> #[trigger] b.inheap(id) == a.inheap(id),
            forall|i: int| 0 <= i < b.heap@.len() ==> (#[trigger] b.heap@[i]).0 != a.heap@[0].0,
    {
        let _ = a.heap@[0];
        assert(a.inheap(a.heap@[0]));
        assert forall|i: int| 0 <= i < b.heap@.len() implies (#[trigger] b.heap@[i]).0 < b.nodes@.len() && b.pos@[b.heap@[i].0 as int] == i && b.heap@[i].0 != a.heap@[0].0
            && b.heap@[i] == a.heap@[if i == 0 { a.heap@.len() - 1 } else { i }] by {
            let _ = a.heap@[i]; let _ = a.heap@[a.heap@.len() - 1];
        }
        assert forall|i: int, j: int| 0 <= i < b.recycle_bin@.len() && 0 <= j < b.heap@.len() implies (#[trigger] b.recycle_bin@[i]).0 != (#[trigger] b.heap@[j]).0 by {
            let _ = a.heap@[if j == 0 { a.heap@.len() - 1 } else { j }];
        }
        assert(b.core());
        assert forall|id: NodeId| id != a.heap@[0] implies #[trigger] b.inheap(id) == a.inheap(id) by {
            if a.inheap(id) {
                let p = a.pos@[id.0 as int] as int;
                if p == a.heap@.len() - 1 { assert(b.heap@[0] == id); } else { assert(b.heap@[p] == id); }
            }
            if b.inheap(id) {
                let p = b.pos@[id.0 as int] as int;
                assert(b.heap@[p] == id);
                assert(a.heap@[if p == 0 { a.heap@.len() - 1 } else { p }] == id);
            }
        }
        if b.heap@.len() > 0 { Self::lowered(a, b); let _ = b.heap@[0]; }
    }
    /// after bubbling, the popped id is recycled and its state forgotten
    proof fn pop_end(a: Self, mid: Self, post: Self, b: Self)
        requires a.wf(), a.heap@.len() > 0, post.core(), post.order(), post.same_content(&mid),
            mid.nodes@ == a.nodes@, mid.states@ == a.states@, mid.recycle_bin@ == a.recycle_bin@,
            mid.heap@.len() == a.heap@.len() - 1,
            !mid.inheap(a.heap@[0]), forall|id: NodeId| id != a.heap@[0] ==> #[trigger] mid.inheap(id) == a.inheap(id),
            b.nodes@ == post.nodes@, b.heap@ == post.heap@, b.pos@ == post.pos@,
            b.recycle_bin@ =~= a.recycle_bin@.push(a.heap@[0]),
            b.states@ =~= a.states@.remove(a.nodes@[a.heap@[0].0 as int].state),
        ensures b.wf(), b.view() =~= a.view().remove(a.nodes@[a.heap@[0].0 as int].state),
    {
        let id0 = a.heap@[0]; let k0 = a.nodes@[id0.0 as int].state;
        assert(a.inheap(id0));
        assert(a.states@[k0] == id0);
        assert forall|i: int| 0 <= i < b.heap@.len() implies (#[trigger] b.heap@[i]).0 != id0.0 by {
            assert(post.heap@[i] == b.heap@[i]);
            assert(post.inheap(b.heap@[i]));
            assert(mid.inheap(b.heap@[i]));
            if b.heap@[i].0 == id0.0 { assert(b.heap@[i] == id0); }
        }
        assert forall|i: int| 0 <= i < b.heap@.len() implies b.states@.contains_key(b.nodes@[(#[trigger] b.heap@[i]).0 as int].state) && b.states@[b.nodes@[b.heap@[i].0 as int].state] == b.heap@[i] by {
            assert(post.heap@[i] == b.heap@[i]);
            if b.nodes@[b.heap@[i].0 as int].state == k0 { assert(b.heap@[i] == id0); }
        }
        assert forall|i: int, j: int| 0 <= i < j < b.recycle_bin@.len() implies (#[trigger] b.recycle_bin@[i]).0 != (#[trigger] b.recycle_bin@[j]).0 by {
            if j == a.recycle_bin@.len() { let _ = a.recycle_bin@[i]; }
        }
        assert forall|i: int, j: int| 0 <= i < b.recycle_bin@.len() && 0 <= j < b.heap@.len() implies (#[trigger] b.recycle_bin@[i]).0 != (#[trigger] b.heap@[j]).0 by {
            if i < a.recycle_bin@.len() { assert(b.recycle_bin@[i] == post.recycle_bin@[i]); assert(post.heap@[j] == b.heap@[j]); }
        }
        assert(b.core());
        assert forall|k: Arc<O::State>| #[trigger] b.states@.contains_key(k) implies b.inheap(b.states@[k]) && b.nodes@[b.states@[k].0 as int].state == k by {
            assert(a.states@.contains_key(k));
            let id = a.states@[k];
            assert(a.inheap(id));
            assert(id != id0);
            assert(mid.inheap(id));
            assert(post.inheap(id) == mid.inheap(id));
        }
        assert(b.cover());
        assert(b.order()) by {
            assert forall|i: int| 0 < i < b.heap@.len() implies b.ub_at(Self::par(i)) >= #[trigger] b.ub_at(i) by {
                assert(post.ub_at(i) == b.ub_at(i)); let _ = post.ub_at(Self::par(i));
            }
        }
    }

    proof fn root_is_max(&self, i: int)
        requires self.wf(), 0 <= i < self.heap@.len()
        ensures self.ub_at(0) >= self.ub_at(i)
        decreases i
    {
        if i > 0 { self.root_is_max(Self::par(i)); }
    }

@@fn src/frontier/no_dup.rs {{ Frontier for NoDupFrontier }} len
@@spec
    ensures ret == self.heap@.len(), self.shape() ==> ret == self.view().dom().len(),
@@entry
    proof { assert(self.view().dom() =~= self.states@.dom()); }
@@end

@@fn src/frontier/no_dup.rs {{ Frontier for NoDupFrontier }} clear
@@spec
    requires obeys_key_model::<Arc<O::State>>(),
    ensures final(self).wf(), final(self).view() =~= Map::<Arc<O::State>, SP<O::State>>::empty(),
@@end

@@fn src/frontier/no_dup.rs {{ impl<'a, O> NoDupFrontier }} new
@@spec
    requires obeys_key_model::<Arc<O::State>>(),
    ensures ret.wf(), ret.view() =~= Map::<Arc<O::State>, SP<O::State>>::empty(),
@@end

@@fn src/frontier/no_dup.rs {{ impl<'a, O> NoDupFrontier }} is_empty
@@spec
    ensures ret <==> self.heap@.len() == 0,
@@end

@@fn src/frontier/no_dup.rs {{ impl<'a, O> NoDupFrontier }} position
@@spec
    requires $p1.0 < self.pos@.len(),
    ensures ret == self.pos@[$p1.0 as int],
@@end

@@fn src/frontier/no_dup.rs {{ impl<'a, O> NoDupFrontier }} compare_at_pos
@@spec
    requires self.ids_ok(), $p1 < self.heap@.len(), $p2 < self.heap@.len(),
    ensures self.ub_at($p1 as int) > self.ub_at($p2 as int) ==> ret == Ordering::Greater,
            self.ub_at($p1 as int) < self.ub_at($p2 as int) ==> ret == Ordering::Less,
@@end

@@fn src/frontier/no_dup.rs {{ impl<'a, O> NoDupFrontier }} is_root
@@spec
    ensures ret <==> $p1 == 0,
@@end
@@fn src/frontier/no_dup.rs {{ impl<'a, O> NoDupFrontier }} is_left
@@spec
    ensures ret <==> $p1 % 2 == 1,
@@end
@@fn src/frontier/no_dup.rs {{ impl<'a, O> NoDupFrontier }} parent
@@spec
    ensures $p1 == 0 ==> ret == 0, $p1 > 0 ==> ret == Self::par($p1 as int),
@@end
@@fn src/frontier/no_dup.rs {{ impl<'a, O> NoDupFrontier }} left_child
@@spec
    requires $p1 <= isize::MAX / 4,
    ensures ret == 2 * $p1 + 1,
@@end
@@fn src/frontier/no_dup.rs {{ impl<'a, O> NoDupFrontier }} right_child
@@spec
    requires $p1 <= isize::MAX / 4,
    ensures ret == 2 * $p1 + 2,
@@end
@@fn src/frontier/no_dup.rs {{ impl<'a, O> NoDupFrontier }} max_child_of
@@spec
    requires self.ids_ok(), $p1 < self.heap@.len(),
    ensures ret == 0 <==> 2 * $p1 + 1 >= self.heap@.len(),
            ret != 0 ==> ret < self.heap@.len() && Self::par(ret as int) == $p1 && ret > $p1,
            ret != 0 ==> forall|i: int| 0 < i < self.heap@.len() && Self::par(i) == $p1 ==> self.ub_at(ret as int) >= #[trigger] self.ub_at(i),
@@end

@@fn src/frontier/no_dup.rs {{ impl<'a, O> NoDupFrontier }} bubble_up
@@spec
    requires old(self).core(), old(self).inheap($p1),
        old(self).up_order(old(self).pos@[$p1.0 as int] as int),
    ensures final(self).core(), final(self).order(), final(self).same_content(old(self)),
@@loop {{ let mut $me:id = $a; let mut $parent:id = $b; while $c { }}
        invariant
            self.core(), self.same_content(old(self)),
            $p1.0 < self.nodes@.len(), $me < self.heap@.len(), self.heap@[$me as int] == $p1,
            $me == 0 ==> $parent == 0, $me > 0 ==> $parent == Self::par($me as int),
            self.up_order($me as int),
        ensures $me == 0 || self.ub_at(Self::par($me as int)) >= self.ub_at($me as int),
        decreases $me,
@@after {{ let mut $me:id = $a; let mut $parent:id = $b; while $c { }}
            let ghost pre = *self; let ghost x = $me as int;
@@endof {{ let mut $me:id = $a; let mut $parent:id = $b; while $c { }}
            proof { Self::swap_shape(pre, *self, x, Self::par(x)); Self::swap_up(pre, *self, x); }
@@afterloop {{ let mut $me:id = $a; let mut $parent:id = $b; while $c { }}
        proof { self.end_up($me as int); }
@@end

@@fn src/frontier/no_dup.rs {{ impl<'a, O> NoDupFrontier }} bubble_down
@@spec
    requires old(self).core(), old(self).inheap($p1),
        old(self).down_order(old(self).pos@[$p1.0 as int] as int),
    ensures final(self).core(), final(self).order(), final(self).same_content(old(self)),
@@loop {{ let mut $me:id = $a; let mut $kid:id = $b; while $c { }}
        invariant
            self.core(), self.same_content(old(self)),
            $p1.0 < self.nodes@.len(), $me < self.heap@.len(), self.heap@[$me as int] == $p1,
            $kid == 0 <==> 2 * $me + 1 >= self.heap@.len(),
            $kid != 0 ==> $kid < self.heap@.len() && Self::par($kid as int) == $me && $kid > $me,
            $kid != 0 ==> forall|i: int| 0 < i < self.heap@.len() && Self::par(i) == $me ==> self.ub_at($kid as int) >= #[trigger] self.ub_at(i),
            self.down_order($me as int),
        ensures forall|i: int| 0 < i < self.heap@.len() && Self::par(i) == $me ==> self.ub_at($me as int) >= #[trigger] self.ub_at(i),
        decreases self.heap@.len() - $me,
@@after {{ let mut $me:id = $a; let mut $kid:id = $b; while $c { }}
            let ghost pre = *self; let ghost x = $me as int; let ghost k = $kid as int;
@@endof {{ let mut $me:id = $a; let mut $kid:id = $b; while $c { }}
            proof { Self::swap_shape(pre, *self, x, k); Self::swap_down(pre, *self, x, k); }
@@afterloop {{ let mut $me:id = $a; let mut $kid:id = $b; while $c { }}
        proof { self.end_down($me as int); }
@@end

@@fn src/frontier/no_dup.rs {{ impl<'a, O> NoDupFrontier }} process_action
@@spec
    requires old(self).core(),
        $p1 is DoNothing ==> old(self).order(),
        $p1 is BubbleUp ==> old(self).inheap($p1->BubbleUp_0)
            && old(self).up_order(old(self).pos@[$p1->BubbleUp_0.0 as int] as int),
        $p1 is BubbleDown ==> old(self).inheap($p1->BubbleDown_0)
            && old(self).down_order(old(self).pos@[$p1->BubbleDown_0.0 as int] as int),
    ensures final(self).core(), final(self).order(), final(self).same_content(old(self)),
@@end

@@fn src/frontier/no_dup.rs {{ Frontier for NoDupFrontier }} push
@@spec
    requires old(self).wf(), old(self).nodes@.len() < isize::MAX / 4,
    ensures final(self).wf(),
        final(self).view() =~= old(self).view().insert($p1.state, pushed(old(self).view(), sp($p1))),
@@entry
    let ghost n0 = $p1;
@@before {{ self.process_action($a); }}
    proof {
        let a = *old(self); let b = *self; let k = n0.state;
        if a.states@.contains_key(k) {
            let id = a.states@[k];
            let x = a.pos@[id.0 as int] as int;
            assert(b.states@ =~= a.states@);
            assert(b.heap@ == a.heap@);
            assert forall|j: int| 0 <= j < a.nodes@.len() && j != id.0 implies b.nodes@[j] == a.nodes@[j] by {}
            assert(sp(b.nodes@[id.0 as int]) =~= pushed(a.view(), sp(n0)));
            assert(b.core());
            assert(b.cover()) by {
                assert forall|k2: Arc<O::State>| #[trigger] b.states@.contains_key(k2) implies b.inheap(b.states@[k2]) && b.nodes@[b.states@[k2].0 as int].state == k2 by {
                    assert(a.inheap(a.states@[k2]));
                }
            }
            assert forall|i: int| 0 <= i < a.heap@.len() && i != x implies a.ub_at(i) == #[trigger] b.ub_at(i) by { let _ = a.heap@[i]; }
            Self::raised(a, b, x);
            assert(b.view() =~= a.view().insert(k, pushed(a.view(), sp(n0)))) by {
                assert forall|k2: Arc<O::State>| k2 != k && #[trigger] a.states@.contains_key(k2) implies b.nodes@[a.states@[k2].0 as int] == a.nodes@[a.states@[k2].0 as int] by {
                    assert(a.inheap(a.states@[k2])); assert(a.inheap(a.states@[k]));
                }
            }
        } else {
            let x = a.heap@.len() as int;
            let id = b.heap@[x];
            assert(b.heap@ =~= a.heap@.push(id));
            assert(b.states@ =~= a.states@.insert(k, id));
            assert(b.nodes@[id.0 as int] == n0);
            assert(forall|i: int| 0 <= i < a.heap@.len() ==> (#[trigger] a.heap@[i]).0 != id.0);
            assert forall|j: int| 0 <= j < a.nodes@.len() && j != id.0 implies b.nodes@[j] == a.nodes@[j] by {}
            assert forall|j: int| 0 <= j < a.nodes@.len() && j != id.0 implies b.pos@[j] == a.pos@[j] by {}
            assert(b.ids_ok()) by {
                if b.heap@.len() > b.nodes@.len() { Self::pigeon(b); }
            }
            assert(b.core());
            assert(b.cover()) by {
                assert forall|k2: Arc<O::State>| #[trigger] b.states@.contains_key(k2) implies b.inheap(b.states@[k2]) && b.nodes@[b.states@[k2].0 as int].state == k2 by {
                    if k2 != k { assert(a.states@.contains_key(k2)); assert(a.inheap(a.states@[k2])); }
                }
            }
            assert forall|i: int| 0 <= i < a.heap@.len() && i != x implies a.ub_at(i) == #[trigger] b.ub_at(i) by { let _ = a.heap@[i]; }
            Self::raised(a, b, x);
            assert(b.view() =~= a.view().insert(k, sp(n0))) by {
                assert forall|k2: Arc<O::State>| #[trigger] a.states@.contains_key(k2) implies b.nodes@[a.states@[k2].0 as int] == a.nodes@[a.states@[k2].0 as int] by {
                    assert(a.inheap(a.states@[k2]));
                }
            }
        }
    }
@@end

@@fn src/frontier/no_dup.rs {{ Frontier for NoDupFrontier }} pop
@@sig {{ Self::State }} => {{ O::State }}
@@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        ret is None ==> old(self).view() =~= Map::<Arc<O::State>, SP<O::State>>::empty() && final(self).view() =~= old(self).view(),
        ret is Some ==> old(self).view().contains_key(ret.unwrap().state) && old(self).view()[ret.unwrap().state] == sp(ret.unwrap()),
        ret is Some ==> final(self).view() =~= old(self).view().remove(ret.unwrap().state),
        ret is Some ==> forall|s: Arc<O::State>| #[trigger] old(self).view().contains_key(s) ==> old(self).view()[s].ub <= ret.unwrap().ub,
@@before {{ self.process_action($a); }}
    let ghost mid = *self;
    proof { Self::pop_mid(*old(self), mid); }
@@after {{ self.process_action($a); }}
    let ghost post = *self;
@@before {{ Some($node) }}
    proof { old(self).root_is_first(); Self::pop_end(*old(self), mid, post, *self); }
@@end
}

/// what the frontier must hold for the state of `n` once `n` was pushed
pub open spec fn pushed<T>(v: Map<Arc<T>, SP<T>>, n: SP<T>) -> SP<T> {
    if v.contains_key(n.state) {
        let o = v[n.state];
        SP {
            state: n.state,
            value: if n.value > o.value { n.value } else { o.value },
            path: if n.value > o.value { n.path } else { o.path },
            ub: if n.ub > o.ub { n.ub } else { o.ub },
        }
    } else { n }
}
// ---- the contract of any frontier, as the solvers use it
pub open spec fn open_map<T>(v: Map<Arc<T>, SP<T>>) -> spec_fn(SP<T>) -> bool { |q: SP<T>| v.contains_key(q.state) && v[q.state] == q }
proof fn meets_push<T>(v: Map<Arc<T>, SP<T>>, n: SP<T>)
    requires forall|s: Arc<T>| #[trigger] v.contains_key(s) ==> v[s].state == s,
    ensures push_rel(open_map(v), open_map(v.insert(n.state, pushed(v, n))), n), v.dom().finite() ==> v.insert(n.state, pushed(v, n)).dom().len() <= v.dom().len() + 1,
        forall|s: Arc<T>| #[trigger] v.insert(n.state, pushed(v, n)).contains_key(s) ==> v.insert(n.state, pushed(v, n))[s].state == s,
{
    let h0 = open_map(v); let p = pushed(v, n); let h1 = open_map(v.insert(n.state, p));
    assert(h1(p) && dominates(p, n));
    assert forall|q: SP<T>| #[trigger] h0(q) implies exists|r: SP<T>| #[trigger] h1(r) && dominates(r, q) by {
        if q.state == n.state { assert(h1(p) && dominates(p, q)); } else { assert(h1(q) && dominates(q, q)); }
    }
    assert forall|r: SP<T>| #[trigger] h1(r) implies exists|q: SP<T>, b: SP<T>| #[trigger] origin(h0, n, q) && #[trigger] origin(h0, n, b) && from2(r, q, b) by {
        if r.state == n.state {
            assert(origin(h0, n, n));
            if v.contains_key(n.state) {
                let o = v[n.state]; assert(origin(h0, n, o));
                let q = if n.value <= o.value { o } else { n }; let b = if n.ub <= o.ub { o } else { n };
                assert(from2(r, q, b));
            } else { assert(from2(r, n, n)); }
        } else { assert(origin(h0, n, r)); assert(from2(r, r, r)); }
    }
    // size
    if !v.contains_key(n.state) { assert(v.insert(n.state, p).dom() =~= v.dom().insert(n.state)); } else { assert(v.insert(n.state, p).dom() =~= v.dom()); }
}
proof fn meets_pop<T>(v: Map<Arc<T>, SP<T>>, r: SP<T>)
    requires v.contains_key(r.state), v[r.state] == r, forall|s: Arc<T>| #[trigger] v.contains_key(s) ==> v[s].ub <= r.ub && v[s].state == s,
    ensures pop_rel(open_map(v), open_map(v.remove(r.state)), Some(r)), v.dom().finite() ==> v.remove(r.state).dom().len() + 1 == v.dom().len(),
{
    assert forall|q: SP<T>| #[trigger] open_map(v)(q) implies open_map(v.remove(r.state))(q) || q == r by {}
}
} // verus!
fn main() {}
