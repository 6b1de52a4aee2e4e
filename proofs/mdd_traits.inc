// ---------------------------------------------------------------- the user's model: contracts of the traits
pub trait Problem {
    type State;
    // TRUSTED: nb_variables, initial_state and initial_value are constants of the model
    fn nb_variables(&self) -> (r: usize) ensures r == nvars::<Self::State>();
    fn initial_state(&self) -> (r: Self::State) ensures r == s0::<Self::State>();
    fn initial_value(&self) -> (r: isize) ensures r == v0::<Self::State>();
    // TRUSTED: documented contract of Problem (transition system): next_variable answers the layer's variable; domain, transition, cost are functions of the state; estimate is admissible
    fn vp_next_variable(&self, layer: &FxHashMap<Arc<Self::State>, NodeId>) -> (r: Option<Variable>)
        ensures forall|k: int| layer@.dom().len() > 0 && (forall|s: Arc<Self::State>| #[trigger] layer@.contains_key(s) ==> sdepth(*s) == k) && 0 <= k <= nvars::<Self::State>()
            ==> #[trigger] vp_k(k) && r == (if k < nvars::<Self::State>() { Some(order::<Self::State>(k)) } else { None });
    fn vp_domain(&self, var: Variable, state: &Self::State) -> (r: Vec<Decision>)
        requires 0 <= sdepth(*state) < nvars::<Self::State>(), var == order::<Self::State>(sdepth(*state))
        ensures forall|d: Decision| r@.contains(d) <==> #[trigger] indom(*state, d);
    fn transition(&self, state: &Self::State, decision: Decision) -> (r: Self::State)
        requires indom(*state, decision)
        ensures r == trans(*state, decision);
    fn transition_cost(&self, state: &Self::State, decision: Decision) -> (r: isize)
        requires indom(*state, decision)
        ensures r == tcost(*state, decision);
    fn estimate(&self, state: &Self::State) -> (r: isize)
        ensures forall|y: int| #[trigger] rch(*state, y) ==> y <= r;
}
pub open spec fn vp_k(k: int) -> bool { true }
pub trait Relaxation {
    type State;
    // TRUSTED: documented contract of Relaxation: the merged state with the relaxed cost over-approximates each merged state with its own cost
    fn vp_merge(&self, states: &Vec<&Self::State>) -> (m: Self::State)
        requires states@.len() > 0, forall|i: int, j: int| 0 <= i < states@.len() && 0 <= j < states@.len() ==> sdepth(*#[trigger] states@[i]) == sdepth(*#[trigger] states@[j])
        ensures forall|i: int| 0 <= i < states@.len() ==> rel(*#[trigger] states@[i], m);
    fn relax(&self, source: &Self::State, dest: &Self::State, new: &Self::State, decision: Decision, cost: isize) -> (r: isize)
        requires rel(*dest, *new), -cmax::<Self::State>() <= cost <= cmax::<Self::State>()
        ensures -cmax::<Self::State>() <= r <= cmax::<Self::State>(), forall|z: int| #[trigger] rch(*dest, z) ==> rch(*new, z + cost - r);
}
@@item src/prelude.rs enum CompilationType
@@derive Clone, Copy, PartialEq, Eq, Structural
@@end
@@item src/prelude.rs enum CutsetType
@@derive Clone, Copy, PartialEq, Eq, Structural
@@end
@@item src/prelude.rs struct CompilationInput
@@end
pub open spec fn sat(x: int) -> int { if x > isize::MAX { isize::MAX as int } else if x < isize::MIN { isize::MIN as int } else { x } }
pub assume_specification [isize::saturating_add] (a: isize, b: isize) -> (r: isize) ensures r == sat(a + b);
pub assume_specification [isize::saturating_sub] (a: isize, b: isize) -> (r: isize) ensures r == sat(a - b);
/// `.as_ref()` and `.eq()` on an Arc (listed desugarings)
// TRUSTED: == of states is structural equality (lawful Eq)
pub trait VpRef<T> { spec fn tgt(&self) -> T; fn vp_ref(&self) -> (r: &T) ensures *r == self.tgt(); fn vp_same(&self, o: &Self) -> (r: bool) ensures r == (self.tgt() == o.tgt()); }
impl<T> VpRef<T> for Arc<T> { open spec fn tgt(&self) -> T { **self } fn vp_ref(&self) -> (r: &T) { &**self }
    #[verifier::external_body] fn vp_same(&self, o: &Self) -> (r: bool) { unimplemented!() } }

/// `a.min(b)` on isize
pub trait VpMin: Sized { spec fn mn(a: Self, b: Self) -> Self; fn vp_min(self, o: Self) -> (r: Self) ensures r == Self::mn(self, o); }
impl VpMin for isize { open spec fn mn(a: isize, b: isize) -> isize { if a <= b { a } else { b } } fn vp_min(self, o: isize) -> (r: isize) { if self <= o { self } else { o } } }

/// `a.max(b)` on isize
pub trait VpMax: Sized { spec fn mx(a: Self, b: Self) -> Self; fn vp_max(self, o: Self) -> (r: Self) ensures r == Self::mx(self, o); }
impl VpMax for isize { open spec fn mx(a: isize, b: isize) -> isize { if a >= b { a } else { b } } fn vp_max(self, o: isize) -> (r: isize) { if self >= o { self } else { o } } }

// helpers of the listed desugarings
// TRUSTED: HashMap::drain / values yield each entry exactly once, in some order
pub open spec fn listing<K>(m: Map<K, NodeId>, ks: Seq<K>, v: Seq<NodeId>) -> bool {
    &&& ks.len() == v.len() && ks.no_duplicates()
    &&& forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i]) && m[ks[i]] == v[i]
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k
}
#[verifier::external_body]
pub fn vp_values<K>(m: &FxHashMap<K, NodeId>) -> (v: Vec<NodeId>)
    ensures exists|ks: Seq<K>| #[trigger] listing(m@, ks, v@), v@.len() == m@.dom().len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_drain_values<K>(m: &mut FxHashMap<K, NodeId>) -> (v: Vec<NodeId>)
    ensures exists|ks: Seq<K>| #[trigger] listing(old(m)@, ks, v@), v@.len() == old(m)@.dom().len(), final(m)@ == Map::<K, NodeId>::empty(),
{ unimplemented!() }
// TRUSTED: Vec::drain(..) yields the elements in order and leaves the vector empty
pub fn vp_drain<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty()
{ let mut r = Vec::new(); std::mem::swap(&mut r, v); r }
// TRUSTED: sort_unstable_by permutes the slice (the comparator, total and pure, is dropped: no property depends on the order)
#[verifier::external_body]
pub fn vp_sort(v: &mut Vec<NodeId>)
    ensures final(v)@.len() == old(v)@.len(), final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|x: NodeId| final(v)@.contains(x) <==> #[trigger] old(v)@.contains(x), old(v)@.no_duplicates() ==> final(v)@.no_duplicates(),
{ unimplemented!() }
// the two halves of split_at_mut, as copies (neither half is written by the code)
pub fn vp_slice(v: &Vec<NodeId>, a: usize, b: usize) -> (r: Vec<NodeId>)
    requires a <= b <= v@.len()
    ensures r@ =~= v@.subrange(a as int, b as int)
{
    let mut r: Vec<NodeId> = Vec::new();
    for i in a..b invariant a <= i <= b, b <= v@.len(), r@ =~= v@.subrange(a as int, i as int) { r.push(v[i]); }
    r
}
