#![feature(const_destruct)]
#![feature(allocator_api)]
#![allow(warnings)]
@@include common.inc
use std::collections::HashMap;
use std::collections::hash_map::Entry;
use std::hash::Hash;
use vstd::std_specs::hash::*;
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::map::group_map_lemmas, vstd::set::group_set_lemmas};
pub type FxHashMap<K, V> = HashMap<K, V>;
@@include subproblem.inc
@@include flags.inc
@@include model.inc
@@include model_ok.inc
@@item src/mdd/with_barrier.rs struct NodeId
@@derive Clone, Copy
@@end
@@item src/mdd/with_barrier.rs struct EdgeId
@@derive Clone, Copy
@@end
@@item src/mdd/with_barrier.rs struct Node
@@end
@@item src/mdd/with_barrier.rs struct Edge
@@derive Clone, Copy
@@end
@@include mdd_traits.inc
@@include graph_b.inc
@@include paths.inc
@@include rec.inc
@@include locb_b.inc
@@include sem_b.inc
@@include compile_b.inc
@@include final_b.inc
@@include dd_contract_b.inc
@@item src/mdd/with_barrier.rs struct BarrierInfo
@@derive Clone, Copy
@@end
/// parking_lot::RwLock, opaque: the code reaches it through vp_get, vp_peek, vp_isempty and vp_put only
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLock<T> { x: Option<T> }
pub type BMaps<T> = Arc<Vec<RwLock<FxHashMap<Arc<T>, BarrierInfo>>>>;
// TRUSTED: one read of one entry of the barrier, under its lock: whatever record it answers was published for that state
#[verifier::external_body]
pub fn vp_get<T>(b: &BMaps<T>, d: usize, s: &Arc<T>, Tracked(l): Tracked<&mut Log<T>>) -> (r: Option<BarrierInfo>)
    requires d < b@.len()
    ensures final(l).pubs == old(l).pubs, r is None ==> final(l).seen == old(l).seen,
        r is Some ==> final(l).seen == old(l).seen.insert(Rec { s: **s, th: r->0.theta as int, ex: r->0.explored }),
{ unimplemented!() }
/// the same, when nothing is concluded from it
#[verifier::external_body]
pub fn vp_peek<T>(b: &BMaps<T>, d: usize, s: &Arc<T>) -> (r: Option<BarrierInfo>)
    requires d < b@.len()
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_isempty<T>(b: &BMaps<T>, d: usize) -> (r: bool)
    requires d < b@.len()
{ unimplemented!() }
// TRUSTED: one write of one entry of the barrier, under its lock
#[verifier::external_body]
pub fn vp_put<T>(b: &BMaps<T>, d: usize, s: Arc<T>, i: BarrierInfo, Tracked(l): Tracked<&mut Log<T>>)
    requires d < b@.len()
    ensures final(l).seen == old(l).seen, final(l).pubs == old(l).pubs.insert(Rec { s: *s, th: i.theta as int, ex: i.explored }),
{ unimplemented!() }
@@item src/mdd/with_barrier.rs struct Barrier
@@attr verifier::reject_recursive_types(T)
@@end
/// the same, in a compilation that marks what it deletes (dd)
pub open spec fn delx<T>(ns: Seq<Node<T>>, al: ISet<int>, dd: bool) -> bool { forall|i: int| 0 <= i < ns.len() ==> fd((#[trigger] ns[i]).flags) == (dd && !al.contains(i)) }
/// none was pruned
pub open spec fn nofp<T>(ns: Seq<Node<T>>, v: Seq<NodeId>) -> bool { forall|j: int| 0 <= j < v.len() ==> !fp(ns[(#[trigger] v[j]).0 as int].flags) }
/// the alive nodes are those not marked as deleted
pub open spec fn dels<T>(ns: Seq<Node<T>>, al: ISet<int>) -> bool { forall|i: int| 0 <= i < ns.len() ==> fd((#[trigger] ns[i]).flags) == !al.contains(i) }
/// same node but for the deleted flag
pub open spec fn dl<T>(a: Node<T>, b: Node<T>) -> bool {
    alike(a, b) && a.state == b.state && a.rub == b.rub && a.value_bot == b.value_bot && a.theta == b.theta && feq(b.flags, b.flags, fx(a.flags), fr(a.flags), fm(a.flags), fc(a.flags), fd(b.flags), fp(a.flags))
}

impl<T> Barrier<T>
where
    T: Eq + PartialEq + Hash + Clone,
{
    pub open spec fn below(ns: Seq<Node<T>>, k: int) -> bool { forall|i: int| 0 <= i < ns.len() ==> sd(#[trigger] ns[i]) <= k }
    /// the next layer: each key is the state of its node, at depth k
    pub open spec fn lay(ns: Seq<Node<T>>, nl: Map<Arc<T>, NodeId>, k: int) -> bool {
        forall|s: Arc<T>| #[trigger] nl.contains_key(s) ==> nl[s].0 < ns.len() && *ns[nl[s].0 as int].state == *s && sdepth(*s) == k
    }
    /// one lock for each layer
    pub open spec fn locked(self) -> bool { self.barriers@.len() > nvars::<T>() }
    pub open spec fn rest0(a: Self, b: Self) -> bool {
        &&& a.root_pa == b.root_pa && a.prev_l == b.prev_l && a.best_n == b.best_n && a.barriers == b.barriers
        &&& a.exact == b.exact && a.cutset_type == b.cutset_type && a.explored == b.explored
    }
    /// a and b differ at most in nodes and edges
    pub open spec fn rest(a: Self, b: Self) -> bool { Self::rest0(a, b) && a.next_l == b.next_l && a.cutset == b.cutset && a.approximate == b.approximate && a.lel_depth == b.lel_depth }
    /// a and b differ at most in nodes and cutset
    pub open spec fn rest_cut(a: Self, b: Self) -> bool { Self::rest0(a, b) && a.next_l == b.next_l && a.edges == b.edges && a.approximate == b.approximate && a.lel_depth == b.lel_depth }
    pub open spec fn branched(a: Self, b: Self, r: SP<T>, from: NodeId, d: Decision) -> bool {
        let ns = a.nodes@; let ms = b.nodes@; let es = a.edges@; let fs = b.edges@;
        let f = from.0 as int; let t = Arc::new(trans(*ns[f].state, d)); let w = b.next_l@[t].0 as int; let k = sd(ns[f]) + 1;
        &&& graph(ms, fs, r) && grows(ns, es, ms, fs) && Self::below(ms, k) && Self::lay(ms, b.next_l@, k) && newl(ms, fs, k)
        &&& forall|i: int| 0 <= i < ns.len() && i != w ==> #[trigger] ms[i] == ns[i]
        &&& w != f && w > 0 && w < ms.len() && sd(ms[w]) == k && *ms[w].state == trans(*ns[f].state, d) && inb(ms, fs, w, es.len() as int) && fs.len() == es.len() + 1 && fs[es.len() as int].from == from && fs[es.len() as int].cost == tcost(*ns[f].state, d)
        &&& a.next_l@.contains_key(t) ==> b.next_l@ =~= a.next_l@ && ms.len() == ns.len() && w < ns.len() && ms[w].rub == ns[w].rub && ms[w].value_bot == ns[w].value_bot && ms[w].depth == ns[w].depth
            && (ms[w].flags == ns[w].flags || ms[w].flags == ns[f].flags)
        &&& !a.next_l@.contains_key(t) ==> b.next_l@ =~= a.next_l@.insert(t, NodeId(ns.len() as usize)) && w == ns.len() && ms.len() == ns.len() + 1 && ms[w].rub == isize::MAX && ms[w].value_bot == isize::MIN && ms[w].depth == ns[f].depth + 1 && ms[w].flags == ns[f].flags
        &&& Self::rest0(a, b) && a.cutset == b.cutset && a.approximate == b.approximate && a.lel_depth == b.lel_depth
    }
    pub open spec fn relaxed(a: Self, b: Self, r: SP<T>, al: ISet<int>, k: int, v: Seq<NodeId>) -> bool {
        let ns = a.nodes@; let es = a.edges@; let ms = b.nodes@; let fs = b.edges@;
        let bl = relayed(ms, al, v, k); let cut = a.cutset_type == CutsetType::LastExactLayer && !a.approximate;
        &&& graph(ms, fs, r) && grows(ns, es, ms, fs) && Self::below(ms, k) && alive_ok(ms, bl) && froms(ms, fs, bl, k) && lay_ids(ms, bl, v, k) && v.len() > 0 && dels(ms, bl) && vth(ms)
        &&& forall|j: int| 0 <= j < v.len() ==> ms[(#[trigger] v[j]).0 as int].theta == isize::MAX && !fp(ms[v[j].0 as int].flags)
        &&& forall|i: int| 0 <= i < ns.len() ==> still(ns[i], #[trigger] ms[i]) && (sd(ns[i]) != k ==> still_graph(ns[i], ms[i]))
                && relax_flags(ns[i].flags, ms[i].flags, sd(ns[i]) != k, cut && (exists|j: int| 0 <= j < a.prev_l@.len() && (#[trigger] a.prev_l@[j]).0 == i))
        &&& forall|i: int| ns.len() <= i < ms.len() ==> sd(#[trigger] ms[i]) == k && ms[i].depth == k && ms[i].rub == isize::MAX && ms[i].theta == isize::MAX && ms[i].value_bot == isize::MIN && feq(ms[i].flags, ms[i].flags, false, true, false, false, false, false)
        &&& forall|lb: int, u: int| al.contains(u) && sd(ns[u]) < k && #[trigger] covered(ns, es, al, lb, u) ==> covered(ms, fs, bl, lb, u)
        &&& b.approximate && b.cutset@ =~= if cut { a.cutset@ + a.prev_l@ } else { a.cutset@ }
        &&& if cut { a.prev_l@.len() > 0 ==> b.lel_depth == Some((k - 1) as usize) } else { b.lel_depth == a.lel_depth }
        &&& Self::rest0(a, b) && a.next_l == b.next_l && ms.len() <= ns.len() + 1
    }

    #[verifier::spinoff_prover]
    #[verifier::rlimit(100)]
    pub proof fn relaxed_inv(a: Self, b: Self, r: SP<T>, al: ISet<int>, k: int, v: Seq<NodeId>, lel: bool, lc: int, lb: int, seen: ISet<Rec<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, ek: int)
        requires
            ek <= k, Self::relaxed(a, b, r, al, k, v), dinv(a.nodes@, a.edges@, r, al, a.cutset@, !a.approximate, lel && a.approximate, lc, k), lel == (a.cutset_type == CutsetType::LastExactLayer),
            lay_ids(a.nodes@, al, a.prev_l@, k - 1), dr(r) + 1 < k < nvars::<T>(), all_cov(a.nodes@, a.edges@, al, lb, k), model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, -big() <= r.value <= big(),
            b.nodes@.len() <= usize::MAX, pok(a.nodes@, seen), erecs(a.nodes@, al, lb, p0, pubs, ek), nofp(a.nodes@, a.prev_l@),
        ensures ({ let ms = b.nodes@; let bl = relayed(ms, al, v, k);
            dinv(ms, b.edges@, r, bl, b.cutset@, false, lel, if a.approximate { lc } else { k - 1 }, k) && all_cov(ms, b.edges@, bl, lb, k) && lay_ids(ms, bl, v, k) && dels(ms, bl) && pok(ms, seen) && erecs(ms, bl, lb, p0, pubs, ek) })
    {
        let ns = a.nodes@; let es = a.edges@; let ms = b.nodes@; let fs = b.edges@; let bl = relayed(ms, al, v, k); let cut = lel && !a.approximate; let ld = if a.approximate { lc } else { k - 1 };
        assert forall|i: int| 0 <= i < ms.len() implies #[trigger] nfresh(ms, r, false, i) && sd(ms[i]) <= k by {
            let _ = ms[i];
            if i < ns.len() { assert(still(ns[i], ms[i])); assert(nfresh(ns, r, !a.approximate, i)); }
            else { rub_max(r, ms[i]); }
        }
        assert forall|u: int| #[trigger] bl.contains(u) && sd(ms[u]) < k implies covered(ms, fs, bl, lb, u) by {
            if v.contains(NodeId(u as usize)) { let j = choose|j: int| 0 <= j < v.len() && v[j] == NodeId(u as usize); assert(v[j].0 == u); }
            assert(al.contains(u)); assert(still(ns[u], ms[u])); assert(covered(ns, es, al, lb, u));
        }
        if lel {
            assert forall|j: int| 0 <= j < b.cutset@.len() implies (#[trigger] b.cutset@[j]).0 < ms.len() && sd(ms[b.cutset@[j].0 as int]) == ld && fx(ms[b.cutset@[j].0 as int].flags) && bl.contains(b.cutset@[j].0 as int) && !fp(ms[b.cutset@[j].0 as int].flags) && fc(ms[b.cutset@[j].0 as int].flags) by {
                let i = b.cutset@[j].0 as int;
                if cut { assert(b.cutset@[j] == a.prev_l@[j]); assert(nfresh(ns, r, true, i)); assert(!fp(ns[i].flags)); }
                assert(still(ns[i], ms[i]));
            }
            assert forall|i: int| #[trigger] bl.contains(i) && sd(ms[i]) == ld && !fp(ms[i].flags) implies b.cutset@.contains(NodeId(i as usize)) by {
                if v.contains(NodeId(i as usize)) { let j = choose|j: int| 0 <= j < v.len() && v[j] == NodeId(i as usize); assert(v[j].0 == i); }
                assert(al.contains(i)); assert(still(ns[i], ms[i]));
                if cut { assert(a.prev_l@.contains(NodeId(i as usize))); assert(b.cutset@ =~= a.prev_l@); }
            }
            assert forall|i: int| 0 <= i < ms.len() && fc((#[trigger] ms[i]).flags) implies sd(ms[i]) == ld && b.cutset@.contains(NodeId(i as usize)) by {
                if i < ns.len() { assert(still(ns[i], ms[i])); assert(relax_flags(ns[i].flags, ms[i].flags, sd(ns[i]) != k, cut && (exists|j: int| 0 <= j < a.prev_l@.len() && (#[trigger] a.prev_l@[j]).0 == i))); let _ = ns[i]; if cut { let j = choose|j: int| 0 <= j < a.prev_l@.len() && (#[trigger] a.prev_l@[j]).0 == i; assert(b.cutset@[j] == a.prev_l@[j]); } }
            }
        } else {
            assert forall|i: int| 0 <= i < ms.len() implies !fc((#[trigger] ms[i]).flags) by { if i < ns.len() { assert(still(ns[i], ms[i])); let _ = ns[i]; } }
        }
        assert forall|i: int| 0 <= i < ms.len() implies sd(#[trigger] ms[i]) <= k by { assert(nfresh(ms, r, false, i)); }
        assert(sorted(ms)) by { assert forall|i: int| 0 <= i < ns.len() implies sd(#[trigger] ms[i]) == sd(ns[i]) <= k by { assert(still(ns[i], ms[i])); let _ = ns[i]; } sorted_keep(ns, ms, k); }
        assert forall|i: int| 0 <= i < ms.len() && fp((#[trigger] ms[i]).flags) implies by_rec(seen, ms[i]) by { assert(i < ns.len()); assert(still(ns[i], ms[i])); assert(by_rec(seen, ns[i])); let q = choose|q: Rec<T>| #[trigger] seen.contains(q) && q.s == *ns[i].state && q.th >= ns[i].theta; assert(seen.contains(q) && q.s == *ms[i].state && q.th >= ms[i].theta); }
        erecs_keep(ns, al, ms, bl, lb, p0, pubs, ek, ek);
    }
    #[verifier::spinoff_prover]
    #[verifier::rlimit(100)]
    pub proof fn branched_inv(a: Self, b: Self, r: SP<T>, from: NodeId, d: Decision, al: ISet<int>, cl: Seq<NodeId>, all: bool, on: bool, lc: int, lb: int, seen: ISet<Rec<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, dd: bool, ek: int)
        requires
            Self::branched(a, b, r, from, d), from.0 < a.nodes@.len(), ({ let k = sd(a.nodes@[from.0 as int]) + 1;
                dinv(a.nodes@, a.edges@, r, al, a.cutset@, all, on, lc, k) && layer(a.nodes@, al, a.next_l@, k) && lay_ids(a.nodes@, al, cl, k - 1) }),
            on ==> lc < sd(a.nodes@[from.0 as int]), al.contains(from.0 as int), model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, -big() <= r.value <= big(), a.nodes@.len() <= usize::MAX, !fp(a.nodes@[from.0 as int].flags), ek <= sd(a.nodes@[from.0 as int]) + 1, delx(a.nodes@, al, dd), pok(a.nodes@, seen), erecs(a.nodes@, al, lb, p0, pubs, ek), newl(a.nodes@, a.edges@, sd(a.nodes@[from.0 as int]) + 1),
        ensures ({ let k = sd(a.nodes@[from.0 as int]) + 1; let w = b.next_l@[kid(a.nodes@[from.0 as int], d)].0 as int; let bl = al.insert(w);
            &&& dinv(b.nodes@, b.edges@, r, bl, b.cutset@, all, on, lc, k) && layer(b.nodes@, bl, b.next_l@, k) && lay_ids(b.nodes@, bl, cl, k - 1)
            &&& went(b.nodes@, b.edges@, bl, from.0 as int, d) && delx(b.nodes@, bl, dd) && pok(b.nodes@, seen) && erecs(b.nodes@, bl, lb, p0, pubs, ek) && newl(b.nodes@, b.edges@, k)
            &&& forall|u: int, x: Decision| 0 <= u < a.nodes@.len() && #[trigger] went(a.nodes@, a.edges@, al, u, x) ==> went(b.nodes@, b.edges@, bl, u, x)
            &&& forall|u: int| 0 <= u < a.nodes@.len() && sd(a.nodes@[u]) < k && #[trigger] covered(a.nodes@, a.edges@, al, lb, u) ==> covered(b.nodes@, b.edges@, bl, lb, u)
            &&& forall|u: int| #[trigger] bl.contains(u) && sd(b.nodes@[u]) < k ==> al.contains(u) && sd(a.nodes@[u]) < k && b.nodes@[u] == a.nodes@[u]
        })
    {
        let ns = a.nodes@; let es = a.edges@; let ms = b.nodes@; let fs = b.edges@; let f = from.0 as int; let t = kid(ns[f], d);
        let w = b.next_l@[t].0 as int; let bl = al.insert(w); let k = sd(ns[f]) + 1; let nl = a.next_l@; let ml = b.next_l@;
        assert forall|i: int| 0 <= i < ns.len() implies sd(#[trigger] ms[i]) == sd(ns[i]) by { }
        assert(nok(ms, fs, r, w)); assert(ms[f] == ns[f]);
        assert forall|i: int| 0 <= i < ms.len() implies #[trigger] nfresh(ms, r, all, i) by {
            assert(nfresh(ns, r, all, f));
            if i < ns.len() { assert(nfresh(ns, r, all, i)); if i != w { assert(ms[i] == ns[i]); } }
            else { rub_max(r, ms[i]); }
        }
        assert forall|e: int| 0 <= e < fs.len() implies bl.contains((#[trigger] fs[e]).from.0 as int) && fs[e].from.0 < ms.len() && sd(ms[fs[e].from.0 as int]) < k && !fp(ms[fs[e].from.0 as int].flags) by {
            if e < es.len() { assert(fs[e] == es[e]); let g = es[e].from.0 as int; assert(sd(ns[g]) < k); assert(sd(ms[g]) == sd(ns[g])); assert(ms[g] == ns[g]); }
        }
        let cs = a.cutset@;
        if on {
            assert forall|j: int| 0 <= j < cs.len() implies (#[trigger] cs[j]).0 < ms.len() && sd(ms[cs[j].0 as int]) == lc && fx(ms[cs[j].0 as int].flags) && !fp(ms[cs[j].0 as int].flags) && fc(ms[cs[j].0 as int].flags) by { let g = cs[j].0 as int; assert(g != w); assert(ms[g] == ns[g]); }
            assert forall|i: int| #[trigger] bl.contains(i) && sd(ms[i]) == lc && !fp(ms[i].flags) implies cs.contains(NodeId(i as usize)) by { assert(i != w); assert(al.contains(i)); assert(ms[i] == ns[i]); }
        }
        assert forall|i: int| 0 <= i < ms.len() && fc((#[trigger] ms[i]).flags) implies on && sd(ms[i]) == lc && cs.contains(NodeId(i as usize)) by { if i < ns.len() && i != w { assert(ms[i] == ns[i]); } else if i < ns.len() { assert(fc(ns[i].flags) || fc(ns[f].flags)); } else { assert(fc(ns[f].flags)); } }
        assert forall|s: Arc<T>| #[trigger] ml.contains_key(s) implies ml[s].0 < ms.len() && *ms[ml[s].0 as int].state == *s && sdepth(*s) == k && bl.contains(ml[s].0 as int) by {
            if nl.contains_key(s) { assert(ml[s] == nl[s]); let g = nl[s].0 as int; if g != w { assert(ms[g] == ns[g]); } }
        }
        assert forall|i: int| 0 <= i < ms.len() && sd(#[trigger] ms[i]) == k implies ml.contains_key(ms[i].state) && ml[ms[i].state].0 == i by {
            if i < ns.len() { let _ = ns[i]; assert(sd(ns[i]) == k); assert(nl.contains_key(ns[i].state)); assert(ms[i].state == ns[i].state || i == w); if i != w { assert(ms[i] == ns[i]); } else { assert(*ms[i].state == *t); assert(ms[i].state == t); } }
            else { assert(*ms[i].state == *t); assert(ms[i].state == t); }
        }
        assert forall|j: int| 0 <= j < cl.len() implies (#[trigger] cl[j]).0 < ms.len() && bl.contains(cl[j].0 as int) && sd(ms[cl[j].0 as int]) == k - 1 by { let g = cl[j].0 as int; assert(sd(ms[g]) == sd(ns[g])); }
        assert forall|i: int| 0 <= i < ms.len() && #[trigger] bl.contains(i) && sd(ms[i]) == k - 1 && !fp(ms[i].flags) implies cl.contains(NodeId(i as usize)) by { assert(i != w); assert(al.contains(i)); assert(ms[i] == ns[i]); }
        assert(sorted(ms)) by { sorted_keep(ns, ms, k); }
        assert forall|i: int| 0 <= i < ms.len() implies fd((#[trigger] ms[i]).flags) == (dd && !bl.contains(i)) by { assert(!fd(ns[f].flags)); if i < ns.len() && i != w { assert(ms[i] == ns[i]); } else if i < ns.len() { let _ = ns[i]; assert(!fd(ns[i].flags)); } }
        assert forall|i: int| 0 <= i < ms.len() && fp((#[trigger] ms[i]).flags) implies by_rec(seen, ms[i]) by { if i < ns.len() && i != w { assert(ms[i] == ns[i]); assert(by_rec(seen, ns[i])); } else if i < ns.len() { let _ = ns[i]; } }
        assert forall|i: int| #[trigger] al.contains(i) && sd(ns[i]) < k implies i != w && ms[i] == ns[i] by { }
        erecs_keep(ns, al, ms, bl, lb, p0, pubs, ek, ek);
        assert(bl.contains(w)); assert(fs[es.len() as int].from == from);
        assert(arc(ms, fs, bl, f, w, es.len() as int)); assert(went(ms, fs, bl, f, d));
        assert forall|u: int, x: Decision| 0 <= u < ns.len() && #[trigger] went(ns, es, al, u, x) implies went(ms, fs, bl, u, x) by { went_grows(ns, es, ms, fs, al, bl, u, x); }
        assert forall|u: int| 0 <= u < ns.len() && sd(ns[u]) < k && #[trigger] covered(ns, es, al, lb, u) implies covered(ms, fs, bl, lb, u) by { assert(u != w); assert(ms[u] == ns[u]); covered_grows(ns, es, ms, fs, al, bl, lb, u); }
        assert forall|u: int| #[trigger] bl.contains(u) && sd(ms[u]) < k implies al.contains(u) && sd(ns[u]) < k && ms[u] == ns[u] by { assert(u != w); assert(al.contains(u)); assert(ms[u] == ns[u]); }
    }

@@fn src/mdd/with_barrier.rs {{impl<T> Barrier<T>}} branch_on
@@attr verifier::spinoff_prover
@@sig {{problem: &P,}} => {{problem: &P, Ghost(r): Ghost<SP<T>>,}}
@@rewrite* {{.as_ref()}} => {{.vp_ref()}}
@@spec
    requires
        obeys_key_model::<Arc<T>>(), model_ok::<T>(), small::<T>(r.value), dr(r) >= 0,
        graph(old(self).nodes@, old(self).edges@, r), $p1.0 < old(self).nodes@.len(), old(self).nodes@[$p1.0 as int].depth == sd(old(self).nodes@[$p1.0 as int]), nvars::<T>() < usize::MAX,
        indom(*old(self).nodes@[$p1.0 as int].state, $p2), !fp(old(self).nodes@[$p1.0 as int].flags), !fd(old(self).nodes@[$p1.0 as int].flags),
        Self::below(old(self).nodes@, sd(old(self).nodes@[$p1.0 as int]) + 1),
        Self::lay(old(self).nodes@, old(self).next_l@, sd(old(self).nodes@[$p1.0 as int]) + 1),
        newl(old(self).nodes@, old(self).edges@, sd(old(self).nodes@[$p1.0 as int]) + 1),
    ensures Self::branched(*old(self), *final(self), r, $p1, $p2),
@@entry
    proof { assert(nok(self.nodes@, self.edges@, r, $p1.0 as int)); vok_small(self.nodes@, r, $p1.0 as int); }
    let ghost ns0 = self.nodes@; let ghost es0 = self.edges@; let ghost nl0 = self.next_l@;
@@endof {{Entry::Vacant($e) => {}}
    proof {
        let w = ns0.len() as int;
        branch_step(ns0, es0, r, self.nodes@, w, self.edges@[es0.len() as int]);
        assert(self.edges@ =~= es0.push(self.edges@[es0.len() as int]));
        Self::newl_step(ns0, es0, r, self.nodes@, w, self.edges@, sd(ns0[$p1.0 as int]) + 1);
    }
@@endof {{Entry::Occupied($e) => {}}
    proof {
        let w = nl0[next_state].0 as int;
        assert(nok(ns0, es0, r, 0)); let _ = ns0[w]; assert(sd(ns0[w]) == sd(ns0[$p1.0 as int]) + 1);
        branch_step(ns0, es0, r, self.nodes@, w, self.edges@[es0.len() as int]);
        assert(self.edges@ =~= es0.push(self.edges@[es0.len() as int]));
        Self::newl_step(ns0, es0, r, self.nodes@, w, self.edges@, sd(ns0[$p1.0 as int]) + 1);
    }
@@end
    pub proof fn newl_step(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, ms: Seq<Node<T>>, w: int, fs: Seq<Edge>, k: int)
        requires newl(ns, es, k), 0 <= w < ms.len(), ms.len() == ns.len() || ms.len() == ns.len() + 1 == w + 1, forall|i: int| 0 <= i < ns.len() && i != w ==> #[trigger] ms[i] == ns[i],
            allreal(ms, fs, w), forall|i: int| 0 <= i < ns.len() && i != w && allreal(ns, es, i) ==> #[trigger] allreal(ms, fs, i), ms[w].theta == isize::MAX, !fp(ms[w].flags), !fd(ms[w].flags),
        ensures newl(ms, fs, k)
    {
        assert forall|i: int| 0 <= i < ms.len() && sd(ms[i]) == k implies (#[trigger] ms[i]).theta == isize::MAX && !fp(ms[i].flags) && !fd(ms[i].flags) && allreal(ms, fs, i) by { if i != w { assert(ms[i] == ns[i]); let _ = ns[i]; assert(allreal(ns, es, i)); assert(allreal(ms, fs, i)); } }
    }

@@fn src/mdd/with_barrier.rs {{impl<T> Barrier<T>}} restrict
@@rewrite {{curr_l.sort_unstable_by($...c);}} => {{vp_sort(curr_l);}}
@@spec
    ensures
        final(self).approximate, final($p2)@.no_duplicates() || !old($p2)@.no_duplicates(),
        forall|x: NodeId| #[trigger] final($p2)@.contains(x) ==> old($p2)@.contains(x),
        Self::rest0(*old(self), *final(self)), final(self).nodes == old(self).nodes && final(self).edges == old(self).edges && final(self).next_l == old(self).next_l,
        final(self).cutset == old(self).cutset && final(self).lel_depth == old(self).lel_depth,
@@end

@@fn src/mdd/with_barrier.rs {{impl<T> Barrier<T>}} relax
@@attr verifier::spinoff_prover
@@attr verifier::rlimit(100)
@@sig {{curr_l: &mut Vec<NodeId>}} => {{curr_l: &mut Vec<NodeId>, Ghost(al): Ghost<ISet<int>>, Ghost(k): Ghost<int>}}
@@rewrite* {{.as_ref()}} => {{.vp_ref()}}
@@rewrite {{curr_l.sort_unstable_by($...c);}} => {{vp_sort(curr_l);}}
@@rewrite {{for $id:id in self.prev_l.iter() {}} => {{for vp_i in 0..self.prev_l.len() { let $id = &self.prev_l[vp_i];}}
@@rewrite {{let ($ka:id, $mg:id) = curr_l.split_at_mut($...e);}} => {{let vp_at = $e; let $ka = vp_slice(curr_l, 0, vp_at); let $mg = vp_slice(curr_l, vp_at, curr_l.len());}}
@@rewrite {{let $m:id = Arc::new(input.relaxation.merge(&mut $v:id.iter().map(|$x:id| $...e)));}} => {{let mut vp_states: Vec<&T> = Vec::new(); for vp_i in 0..$v.len() { let $x = &$v[vp_i]; vp_states.push($e); } let $m = Arc::new(input.relaxation.vp_merge(&vp_states));}}
@@rewrite {{let $rc:id = $v:id.iter().find(|$x:id| $...c).map(|$x2:id| *$x3:id);}} => {{let mut $rc: Option<NodeId> = None; for vp_f in 0..$v.len() { let $x = &$v[vp_f]; if $rc.is_none() && ($c) { $rc = Some(*$x); } }}}
@@rewrite {{.eq(&merged)}} => {{.vp_same(&merged)}}
@@rewrite {{$rc:id.unwrap_or_else(|| {$...b})}} => {{match $rc { Some(vp_x) => vp_x, None => {$b} }}}
@@rewrite {{for $d:id in merge {}} => {{for vp_j in 0..merge.len() { let $d = &merge[vp_j];}}
@@spec
    requires
        model_ok::<T>(), small::<T>(input.residual.value as int), dr(sp(input.residual)) >= 0, dr(sp(input.residual)) < k <= nvars::<T>(), nvars::<T>() < usize::MAX,
        graph(old(self).nodes@, old(self).edges@, sp(input.residual)),
        Self::below(old(self).nodes@, k), alive_ok(old(self).nodes@, al), froms(old(self).nodes@, old(self).edges@, al, k),
        lay_ids(old(self).nodes@, al, old($p2)@, k), dels(old(self).nodes@, al), vth(old(self).nodes@),
        forall|i: int| 0 <= i < old(self).nodes@.len() ==> (#[trigger] old(self).nodes@[i]).depth == sd(old(self).nodes@[i]),
        forall|j: int| 0 <= j < old($p2)@.len() ==> old(self).nodes@[(#[trigger] old($p2)@[j]).0 as int].theta == isize::MAX && !fp(old(self).nodes@[old($p2)@[j].0 as int].flags),
        1 <= input.max_width < old($p2)@.len(),
        forall|j: int| 0 <= j < old(self).prev_l@.len() ==> (#[trigger] old(self).prev_l@[j]).0 < old(self).nodes@.len() && sd(old(self).nodes@[old(self).prev_l@[j].0 as int]) == k - 1,
    ensures Self::relaxed(*old(self), *final(self), sp(input.residual), al, k, final($p2)@),
@@entry
    hide(lay_ids);
    let ghost r = sp(input.residual);
    let ghost ns0 = self.nodes@; let ghost es0 = self.edges@; let ghost cl0 = curr_l@; let ghost cut = self.cutset_type == CutsetType::LastExactLayer && !self.approximate;
    let ghost prev0 = self.prev_l@;
    proof { assert(Self::prx(ns0, ns0, prev0, 0)) by { reveal(Barrier::prx); } }
@@loop {{for vp_i in 0..self.prev_l.len() {}}
    invariant
        self.prev_l@ == prev0, self.edges@ == es0, alike_all(ns0, self.nodes@), self.nodes@.len() == ns0.len(),
        forall|j: int| 0 <= j < prev0.len() ==> (#[trigger] prev0[j]).0 < ns0.len() && ns0[prev0[j].0 as int].depth == k - 1,
        Self::prx(ns0, self.nodes@, prev0, vp_i as int),
        self.cutset@ == old(self).cutset@ + prev0.subrange(0, vp_i as int), vp_i > 0 ==> self.lel_depth == Some((k - 1) as usize), vp_i == 0 ==> self.lel_depth == old(self).lel_depth,
        Self::rest0(*old(self), *self), self.next_l == old(self).next_l, self.approximate == old(self).approximate,
@@after {{let $id:id = &self.prev_l[vp_i];}}
    let ghost nsp = self.nodes@;
@@endof {{for vp_i in 0..self.prev_l.len() {}}
    proof { reveal(Barrier::prx); let ms = self.nodes@; let c = prev0[vp_i as int].0 as int; assert(Self::prx(ns0, ms, prev0, vp_i + 1)) by {
        assert forall|i: int| 0 <= i < ns0.len() implies still(ns0[i], #[trigger] ms[i]) && relax_flags(ns0[i].flags, ms[i].flags, true, exists|j: int| 0 <= j < vp_i + 1 && (#[trigger] prev0[j]).0 == i) by {
            assert(still(ns0[i], nsp[i])); if i != c { assert(ms[i] == nsp[i]); } }
    } }
@@before {{vp_sort(curr_l);}}
    proof { assert forall|j: int| 0 <= j < prev0.len() implies ns0[(#[trigger] prev0[j]).0 as int].depth == k - 1 by { } }
@@after {{vp_sort(curr_l);}}
    let ghost cl1 = curr_l@; let ghost nsa = self.nodes@;
    proof {
        assert(Self::prx(ns0, nsa, prev0, if cut { prev0.len() as int } else { 0 }));
        graph_alike(ns0, nsa, es0, r, -1);
        assert(forall|i: int| 0 <= i < ns0.len() ==> still(ns0[i], #[trigger] nsa[i])) by { reveal(Barrier::prx); }
        assert forall|j: int| 0 <= j < cl1.len() implies cl0.contains(#[trigger] cl1[j]) && cl1[j].0 < nsa.len() && al.contains(cl1[j].0 as int) && sd(nsa[cl1[j].0 as int]) == k && ns0[cl1[j].0 as int].theta == isize::MAX && !fp(ns0[cl1[j].0 as int].flags) by {
            reveal(lay_ids); assert(cl1.contains(cl1[j])); assert(cl0.contains(cl1[j])); let q = choose|q: int| 0 <= q < cl0.len() && cl0[q] == cl1[j]; assert(cl0[q].0 < ns0.len()); assert(still(ns0[cl1[j].0 as int], nsa[cl1[j].0 as int]));
        }
        assert(forall|i: int| 0 <= i < ns0.len() ==> sd(#[trigger] nsa[i]) == sd(ns0[i])) by { assert(forall|i: int| 0 <= i < ns0.len() ==> still(ns0[i], #[trigger] nsa[i])); }
        assert(froms(nsa, es0, al, k)) by { assert forall|e: int| 0 <= e < es0.len() implies al.contains((#[trigger] es0[e]).from.0 as int) && es0[e].from.0 < nsa.len() && sd(nsa[es0[e].from.0 as int]) < k && !fp(nsa[es0[e].from.0 as int].flags) by { let g = es0[e].from.0 as int; assert(still(ns0[g], nsa[g])); } }
    }
@@loop {{for vp_i in 0..merge.len() {}}
    invariant
        merge@ == cl1.subrange(input.max_width - 1, cl1.len() as int), 1 <= input.max_width < cl1.len(), self.nodes@ == nsa,
        forall|j: int| 0 <= j < cl1.len() ==> (#[trigger] cl1[j]).0 < nsa.len(),
        vp_states@.len() == vp_i, forall|j: int| 0 <= j < cl1.len() ==> sd(nsa[(#[trigger] cl1[j]).0 as int]) == k,
        forall|j: int| 0 <= j < vp_i ==> sdepth(*(#[trigger] vp_states@[j])) == k, forall|j: int| 0 <= j < vp_i ==> *(#[trigger] vp_states@[j]) == *nsa[merge@[j].0 as int].state,
@@loop {{for vp_f in 0..keep.len() {}}
    invariant
        keep@ == cl1.subrange(0, input.max_width - 1), 1 <= input.max_width < cl1.len(), self.nodes@ == nsa,
        forall|j: int| 0 <= j < cl1.len() ==> (#[trigger] cl1[j]).0 < nsa.len(),
        recycled is Some ==> keep@.contains(recycled->0) && *nsa[(recycled->0).0 as int].state == *merged,
@@after {{self.nodes[merged_id.0].flags.set_relaxed(true);}}
    let ghost ns1 = self.nodes@; let ghost m = merged_id.0 as int; let ghost s1 = *self;
    proof {
        assert(merge@[0] == cl1[input.max_width - 1]);
        assert forall|j: int| 0 <= j < merge@.len() implies (#[trigger] merge@[j]).0 < nsa.len() && sd(nsa[merge@[j].0 as int]) == k && merge@[j].0 != m && rel(*nsa[merge@[j].0 as int].state, *merged) by {
            reveal(lay_ids);
            assert(merge@[j] == cl1[input.max_width - 1 + j]);
            assert(*vp_states@[j] == *nsa[merge@[j].0 as int].state);
            if recycled is Some { let q = choose|q: int| 0 <= q < keep@.len() && keep@[q] == recycled->0; assert(keep@[q] == cl1[q]); }
        }
        assert(rel(*nsa[merge@[0].0 as int].state, *merged));
        if recycled is Some { let q = choose|q: int| 0 <= q < keep@.len() && keep@[q] == recycled->0; assert(keep@[q] == cl1[q]); assert(sd(nsa[m]) == k); }
        assert(nok(ns0, es0, r, 0)); assert(still(ns0[0], nsa[0]));
        merged_start(nsa, es0, ns1, r, al, k, m);
        assert forall|j: int| 0 <= j < merge@.len() implies (#[trigger] merge@[j]).0 < ns1.len() && ns1[merge@[j].0 as int] == nsa[merge@[j].0 as int] by { }
        grows_trans(ns0, es0, nsa, es0, ns1, es0);
        let w0 = input.max_width as int;
        if recycled is Some { let q = choose|q: int| 0 <= q < keep@.len() && keep@[q] == recycled->0; assert(cl1[q] == NodeId(m as usize)); }
        assert(Self::rx1(r, ns0, es0, nsa, ns1, al, k, m, w0, recycled is Some, cl0, cl1, merge@, prev0, cut)) by { reveal(Barrier::rx1); reveal(lay_ids); }
        assert(Self::dlx(ns1, ns1, m, merge@, 0)) by { reveal(Barrier::dlx); } assert(Self::rdx(ns1, es0, ns1, es0, m, merge@, 0)) by { reveal(Barrier::rdx); }
    }
@@loop {{for vp_j in 0..merge.len() {}}
    invariant
        model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, dr(r) < k <= nvars::<T>(), r == sp(input.residual),
        m == merged_id.0, 0 < m < ns1.len(), sd(ns1[m]) == k, *ns1[m].state == *merged, fr(ns1[m].flags), !fx(ns1[m].flags),
        forall|j: int| 0 <= j < merge@.len() ==> (#[trigger] merge@[j]).0 < ns1.len() && sd(ns1[merge@[j].0 as int]) == k && merge@[j].0 != m && rel(*ns1[merge@[j].0 as int].state, *merged),
        graph_but(ns1, es0, r, m), froms(ns1, es0, al, k), Self::below(ns1, k),
        self.nodes@.len() == ns1.len(), Self::dlx(ns1, self.nodes@, m, merge@, vp_j as int),
        still(ns1[m], self.nodes@[m]), self.nodes@[m].flags == ns1[m].flags,
        graph_but(self.nodes@, self.edges@, r, m), grows(ns1, es0, self.nodes@, self.edges@), froms(self.nodes@, self.edges@, al, k), Self::below(self.nodes@, k),
        nok(self.nodes@, self.edges@, r, m) || (vp_j == 0 && self.nodes@[m] == ns1[m] && ns1[m].value == isize::MIN && ns1[m].best is None),
        Self::rdx(ns1, es0, self.nodes@, self.edges@, m, merge@, vp_j as int),
        Self::rest(*self, s1),
@@before {{self.nodes[drop_id.0].flags.set_deleted(true);}}
    let ghost np = self.nodes@;
@@after {{self.nodes[drop_id.0].flags.set_deleted(true);}}
    proof {
        reveal(Barrier::dlx); reveal(Barrier::rdx);
        let nn = self.nodes@; let d = drop_id.0 as int; let es = self.edges@; assert(*drop_id == merge@[vp_j as int]);
        assert(alike_all(np, nn)) by { assert forall|i: int| 0 <= i < np.len() implies alike(np[i], #[trigger] nn[i]) by { if i != d { assert(nn[i] == np[i]); } } }
        graph_alike(np, nn, es, r, m); grows_trans(ns1, es0, np, es, nn, es);
        assert(froms(nn, es, al, k)) by { assert forall|e: int| 0 <= e < es.len() implies al.contains((#[trigger] es[e]).from.0 as int) && es[e].from.0 < nn.len() && sd(nn[es[e].from.0 as int]) < k && !fp(nn[es[e].from.0 as int].flags) by { let g = es[e].from.0 as int; assert(alike(np[g], nn[g])); if g != d { assert(nn[g] == np[g]); } } }
        assert forall|i: int| 0 <= i < ns1.len() && i != m implies dl(ns1[i], #[trigger] nn[i]) && fd(nn[i].flags) == (fd(ns1[i].flags) || exists|j: int| 0 <= j < vp_j + 1 && (#[trigger] merge@[j]).0 == i) by {
            assert(dl(ns1[i], np[i]));
            if i != d { assert(nn[i] == np[i]); } else { assert(merge@[vp_j as int].0 == i); }
        }
        assert forall|i: int| 0 <= i < nn.len() implies sd(#[trigger] nn[i]) <= k by { assert(alike(np[i], nn[i])); let _ = np[i]; }
        assert forall|j: int, e: int| 0 <= j < vp_j && #[trigger] inb(ns1, es0, merge@[j].0 as int, e) implies redir(nn, es, m, *ns1[merge@[j].0 as int].state, es0[e]) by {
            redir_grows(np, es, nn, es, m, *ns1[merge@[j].0 as int].state, es0[e]);
        }
        assert(nn[m] == np[m]);
    }
@@loop {{while let Some($eid:id) = edge_id {}}
    invariant
        model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, dr(r) < k <= nvars::<T>(), r == sp(input.residual),
        m == merged_id.0, 0 < m < ns1.len(), sd(ns1[m]) == k, *ns1[m].state == *merged, fr(ns1[m].flags), !fx(ns1[m].flags),
        drop_id.0 < ns1.len(), sd(ns1[drop_id.0 as int]) == k, drop_id.0 != m, rel(*ns1[drop_id.0 as int].state, *merged), *drop_id == merge@[vp_j as int],
        graph_but(ns1, es0, r, m), froms(ns1, es0, al, k), Self::below(ns1, k),
        self.nodes@.len() == ns1.len(), Self::dlx(ns1, self.nodes@, m, merge@, vp_j + 1),
        still(ns1[m], self.nodes@[m]), self.nodes@[m].flags == ns1[m].flags,
        graph_but(self.nodes@, self.edges@, r, m), grows(ns1, es0, self.nodes@, self.edges@), froms(self.nodes@, self.edges@, al, k), Self::below(self.nodes@, k),
        nok(self.nodes@, self.edges@, r, m) || (vp_j == 0 && edge_id == ns1[drop_id.0 as int].inbound && self.nodes@[m] == ns1[m] && ns1[m].value == isize::MIN && ns1[m].best is None),
        Self::rdx(ns1, es0, self.nodes@, self.edges@, m, merge@, vp_j as int),
        edge_id is Some ==> inb(ns1, es0, drop_id.0 as int, hd(edge_id)),
        forall|e: int| #[trigger] inb(ns1, es0, drop_id.0 as int, e) ==> (edge_id is Some && inl(es0, hd(edge_id), e)) || redir(self.nodes@, self.edges@, m, *ns1[drop_id.0 as int].state, es0[e]),
        Self::rest(*self, s1),
    ensures edge_id is None,
    decreases hd(edge_id) + 1
@@after {{let edge = self.edges[eid.0];}}
    let ghost nb = self.nodes@; let ghost eb = self.edges@; let ghost h = eid.0 as int; let ghost dd = drop_id.0 as int;
    proof { reveal(Barrier::dlx); assert(eok(ns1, es0, dd, h)); assert(eb[h] == es0[h]); let f = edge.from.0 as int; assert(sd(ns1[f]) + 1 == k); assert(f != m); assert(dl(ns1[f], nb[f])); assert(nok(nb, eb, r, f)); vok_small(nb, r, f); assert(dl(ns1[dd], nb[dd])); }
@@before {{edge_id = edge.next;}}
    proof {
        reveal(Barrier::dlx); reveal(Barrier::rdx);
        let x = self.edges@[eb.len() as int]; let fs = self.edges@; let ms = self.nodes@;
        assert(fs =~= eb.push(x));
        merge_step(nb, eb, r, ms, m, x, k);
        grows_trans(ns1, es0, nb, eb, ms, fs);
        assert forall|j: int, e: int| 0 <= j < vp_j && #[trigger] inb(ns1, es0, merge@[j].0 as int, e) implies redir(ms, fs, m, *ns1[merge@[j].0 as int].state, es0[e]) by {
            redir_grows(nb, eb, ms, fs, m, *ns1[merge@[j].0 as int].state, es0[e]);
        }
        assert(inb(ms, fs, m, eb.len() as int) && fs[eb.len() as int].from == es0[h].from);
        assert(redir(ms, fs, m, *ns1[dd].state, es0[h]));
        assert forall|e: int| #[trigger] inb(ns1, es0, dd, e) implies (es0[h].next is Some && inl(es0, hd(es0[h].next), e)) || redir(ms, fs, m, *ns1[dd].state, es0[e]) by {
            assert(!inl(es0, -1, e)); if inl(es0, h, e) { } else { redir_grows(nb, eb, ms, fs, m, *ns1[dd].state, es0[e]); }
        }
        if es0[h].next is Some { inl_tail(es0, hd(ns1[dd].inbound), h); }
        assert forall|i: int| 0 <= i < ns1.len() && i != m implies dl(ns1[i], #[trigger] ms[i]) && fd(ms[i].flags) == (fd(ns1[i].flags) || exists|j: int| 0 <= j < vp_j + 1 && (#[trigger] merge@[j]).0 == i) by { assert(ms[i] == nb[i]); let _ = nb[i]; }
        assert forall|e: int| 0 <= e < fs.len() implies al.contains((#[trigger] fs[e]).from.0 as int) && fs[e].from.0 < ms.len() && sd(ms[fs[e].from.0 as int]) < k && !fp(ms[fs[e].from.0 as int].flags) by {
            if e < eb.len() { assert(fs[e] == eb[e]); let g = eb[e].from.0 as int; assert(sd(nb[g]) < k); if g != m { assert(ms[g] == nb[g]); } } else { assert(fs[e] == x); let _ = es0[h]; let f = edge.from.0 as int; assert(ms[f] == nb[f]); assert(dl(ns1[f], nb[f])); }
        }
    }
@@afterloop {{while let Some($eid:id) = edge_id {}}
    proof { reveal(Barrier::rdx); assert(nok(ns1, es0, r, drop_id.0 as int)); assert(bok(ns1, es0, drop_id.0 as int)); assert(inb(ns1, es0, drop_id.0 as int, hd(ns1[drop_id.0 as int].best))); }
@@afterloop {{for vp_j in 0..merge.len() {}}
    let ghost mz = self.nodes@; let ghost fs = self.edges@;
    proof { assert(nok(mz, fs, r, m)); assert(Self::rx2(r, es0, ns1, mz, fs, al, k, m, merge@)) by { reveal(Barrier::rx2); } }
@@before {{let saved_id = $...e;}}
    proof { assert(cl1[input.max_width - 1].0 < mz.len()); assert(curr_l@[input.max_width - 1] == cl1[input.max_width - 1]); }
@@afterloop {{if recycled.is_some() { $...a } else {}}
    let ghost ms = self.nodes@;
    proof {
        assert(self.nodes.len() == ms.len()); let w0 = input.max_width as int;
        if recycled is Some { let q = choose|q: int| 0 <= q < keep@.len() && keep@[q] == recycled->0; assert(keep@[q] == cl1[q]); assert(merge@[0].0 != m); assert(cl1[q] == NodeId(m as usize)); }
        Self::relax_fin(r, ns0, es0, nsa, ns1, mz, ms, fs, al, k, m, w0, recycled is Some, cl0, cl1, merge@, curr_l@, prev0, cut);
        reveal(Barrier::rfin);
    }
@@end
    /// the nodes of pv[..n] are in the cutset
    #[verifier::opaque]
    pub open spec fn prx(ns0: Seq<Node<T>>, ms: Seq<Node<T>>, pv: Seq<NodeId>, n: int) -> bool {
        forall|i: int| 0 <= i < ns0.len() ==> still(ns0[i], #[trigger] ms[i]) && relax_flags(ns0[i].flags, ms[i].flags, true, exists|j: int| 0 <= j < n && (#[trigger] pv[j]).0 == i)
    }
    #[verifier::opaque]
    pub open spec fn rx1(r: SP<T>, ns0: Seq<Node<T>>, es0: Seq<Edge>, nsa: Seq<Node<T>>, ns1: Seq<Node<T>>, al: ISet<int>, k: int, m: int, w0: int, rec: bool, cl0: Seq<NodeId>, cl1: Seq<NodeId>, mg: Seq<NodeId>, prev0: Seq<NodeId>, cut: bool) -> bool {
            &&& dels(ns0, al) && vth(ns0) && lay_ids(ns0, al, cl0, k) && alive_ok(ns0, al) && (forall|x: NodeId| cl1.contains(x) <==> #[trigger] cl0.contains(x)) && cl1.no_duplicates() && 1 <= w0 < cl1.len()
            &&& mg == cl1.subrange(w0 - 1, cl1.len() as int) && dr(r) < k && 0 < m < ns1.len() && graph(ns0, es0, r)
            &&& forall|j: int| 0 <= j < cl1.len() ==> cl0.contains(#[trigger] cl1[j]) && cl1[j].0 < nsa.len() && al.contains(cl1[j].0 as int) && sd(nsa[cl1[j].0 as int]) == k && ns0[cl1[j].0 as int].theta == isize::MAX && !fp(ns0[cl1[j].0 as int].flags)
            &&& forall|j: int| 0 <= j < cl0.len() ==> !fp(ns0[(#[trigger] cl0[j]).0 as int].flags)
            &&& alike_all(ns0, nsa) && Self::prx(ns0, nsa, prev0, if cut { prev0.len() as int } else { 0 })
            &&& rec ==> ns1.len() == nsa.len() && (exists|q: int| 0 <= q < w0 - 1 && #[trigger] cl1[q] == NodeId(m as usize))
                && still(nsa[m], ns1[m]) && fd(ns1[m].flags) == fd(nsa[m].flags) && fc(ns1[m].flags) == fc(nsa[m].flags) && fm(ns1[m].flags) == fm(nsa[m].flags) && (fr(nsa[m].flags) ==> fr(ns1[m].flags)) && !fx(ns1[m].flags)
            &&& !rec ==> ns1.len() == nsa.len() + 1 && m == nsa.len() && sd(ns1[m]) == k
                && ns1[m].theta == isize::MAX && ns1[m].depth == k && ns1[m].rub == isize::MAX && ns1[m].value_bot == isize::MIN && feq(ns1[m].flags, ns1[m].flags, false, true, false, false, false, false)
            &&& forall|i: int| 0 <= i < nsa.len() && i != m ==> ns1[i] == #[trigger] nsa[i]
            &&& grows(ns0, es0, nsa, es0) && grows(nsa, es0, ns1, es0) && (forall|i: int, e: int| 0 <= i < nsa.len() ==> inb(ns1, es0, i, e) == #[trigger] inb(nsa, es0, i, e))
    }
    /// the nodes of mg[..n] are marked as deleted
    #[verifier::opaque]
    pub open spec fn dlx(ns1: Seq<Node<T>>, ms: Seq<Node<T>>, m: int, mg: Seq<NodeId>, n: int) -> bool {
        forall|i: int| 0 <= i < ns1.len() && i != m ==> dl(ns1[i], #[trigger] ms[i]) && fd(ms[i].flags) == (fd(ns1[i].flags) || exists|j: int| 0 <= j < n && (#[trigger] mg[j]).0 == i)
    }
    /// the arcs into mg[..n] have been redirected into m
    #[verifier::opaque]
    pub open spec fn rdx(ns1: Seq<Node<T>>, es0: Seq<Edge>, ms: Seq<Node<T>>, fs: Seq<Edge>, m: int, mg: Seq<NodeId>, n: int) -> bool {
        forall|j: int, e: int| 0 <= j < n && #[trigger] inb(ns1, es0, mg[j].0 as int, e) ==> redir(ms, fs, m, *ns1[mg[j].0 as int].state, es0[e])
    }
    #[verifier::opaque]
    pub open spec fn rx2(r: SP<T>, es0: Seq<Edge>, ns1: Seq<Node<T>>, mz: Seq<Node<T>>, fs: Seq<Edge>, al: ISet<int>, k: int, m: int, mg: Seq<NodeId>) -> bool {
            &&& mz.len() == ns1.len() && graph_but(mz, fs, r, m) && nok(mz, fs, r, m) && grows(ns1, es0, mz, fs) && froms(mz, fs, al, k) && Self::below(mz, k) && still(ns1[m], mz[m]) && mz[m].flags == ns1[m].flags
            &&& Self::dlx(ns1, mz, m, mg, mg.len() as int) && Self::rdx(ns1, es0, mz, fs, m, mg, mg.len() as int)
    }
    #[verifier::opaque]
    pub open spec fn rfin(ns0: Seq<Node<T>>, es0: Seq<Edge>, ms: Seq<Node<T>>, fs: Seq<Edge>, r: SP<T>, al: ISet<int>, k: int, v: Seq<NodeId>, prev0: Seq<NodeId>, cut: bool) -> bool {
            let bl = relayed(ms, al, v, k);
            &&& graph(ms, fs, r) && grows(ns0, es0, ms, fs) && Self::below(ms, k) && alive_ok(ms, bl) && froms(ms, fs, bl, k) && lay_ids(ms, bl, v, k) && v.len() > 0 && dels(ms, bl) && vth(ms) && ms.len() <= ns0.len() + 1
            &&& forall|j: int| 0 <= j < v.len() ==> ms[(#[trigger] v[j]).0 as int].theta == isize::MAX && !fp(ms[v[j].0 as int].flags)
            &&& forall|i: int| 0 <= i < ns0.len() ==> still(ns0[i], #[trigger] ms[i]) && (sd(ns0[i]) != k ==> still_graph(ns0[i], ms[i]))
                    && relax_flags(ns0[i].flags, ms[i].flags, sd(ns0[i]) != k, cut && (exists|j: int| 0 <= j < prev0.len() && (#[trigger] prev0[j]).0 == i))
            &&& forall|i: int| ns0.len() <= i < ms.len() ==> sd(#[trigger] ms[i]) == k && ms[i].depth == k && ms[i].rub == isize::MAX && ms[i].theta == isize::MAX && ms[i].value_bot == isize::MIN && feq(ms[i].flags, ms[i].flags, false, true, false, false, false, false)
            &&& forall|lb: int, u: int| al.contains(u) && sd(ns0[u]) < k && #[trigger] covered(ns0, es0, al, lb, u) ==> covered(ms, fs, bl, lb, u)
    }
    #[verifier::spinoff_prover]
    #[verifier::rlimit(100)]
    pub proof fn relax_fin(r: SP<T>, ns0: Seq<Node<T>>, es0: Seq<Edge>, nsa: Seq<Node<T>>, ns1: Seq<Node<T>>, mz: Seq<Node<T>>, ms: Seq<Node<T>>, fs: Seq<Edge>, al: ISet<int>, k: int, m: int, w0: int, rec: bool, cl0: Seq<NodeId>, cl1: Seq<NodeId>, mg: Seq<NodeId>, v: Seq<NodeId>, prev0: Seq<NodeId>, cut: bool)
        requires
            Self::rx1(r, ns0, es0, nsa, ns1, al, k, m, w0, rec, cl0, cl1, mg, prev0, cut), Self::rx2(r, es0, ns1, mz, fs, al, k, m, mg), ms.len() <= usize::MAX,
            rec ==> v == cl1.subrange(0, w0), !rec ==> v == cl1.subrange(0, w0 - 1).push(NodeId(m as usize)),
            ms.len() == mz.len(), forall|i: int| 0 <= i < mz.len() && !(rec && i == cl1[w0 - 1].0) ==> #[trigger] ms[i] == mz[i],
            rec ==> cl1[w0 - 1].0 != m && dl(mz[cl1[w0 - 1].0 as int], ms[cl1[w0 - 1].0 as int]) && !fd(ms[cl1[w0 - 1].0 as int].flags),
        ensures Self::rfin(ns0, es0, ms, fs, r, al, k, v, prev0, cut),
    {
        reveal(Barrier::prx); reveal(Barrier::rx1); reveal(Barrier::rx2); reveal(Barrier::rfin); reveal(Barrier::dlx); reveal(Barrier::rdx);
        assert(mg[0] == cl1[w0 - 1]);
        if rec { let q = choose|q: int| 0 <= q < w0 - 1 && #[trigger] cl1[q] == NodeId(m as usize); }
                assert(alike_all(mz, ms)) by { assert forall|i: int| 0 <= i < mz.len() implies alike(mz[i], #[trigger] ms[i]) by { if rec { let s = cl1[w0 - 1].0 as int; if i != s { assert(ms[i] == mz[i]); } } } }
        graph_alike(mz, ms, fs, r, m); grows_trans(ns1, es0, mz, fs, ms, fs);
        assert(ms[m] == mz[m]);
        assert forall|i: int| 0 <= i < ns1.len() && i != m implies dl(ns1[i], #[trigger] ms[i]) && fd(ms[i].flags) == ((fd(ns1[i].flags) || exists|j: int| 0 <= j < mg.len() && (#[trigger] mg[j]).0 == i) && !(rec && i == cl1[w0 - 1].0)) by {
            assert(dl(ns1[i], mz[i]));
        }
        assert forall|i: int| 0 <= i < ns0.len() implies still(ns0[i], #[trigger] ms[i]) && (sd(ns0[i]) != k ==> still_graph(ns0[i], ms[i]))
                && relax_flags(ns0[i].flags, ms[i].flags, sd(ns0[i]) != k, cut && (exists|j: int| 0 <= j < prev0.len() && (#[trigger] prev0[j]).0 == i)) by {
            assert(still(ns0[i], nsa[i])); assert(alike(ns0[i], nsa[i]));
            if i != m { assert(ns1[i] == nsa[i]); assert(dl(ns1[i], ms[i])); }
            if sd(ns0[i]) != k {
                if rec && i == cl1[w0 - 1].0 { assert(sd(nsa[cl1[w0 - 1].0 as int]) == k); }
                if exists|j: int| 0 <= j < mg.len() && (#[trigger] mg[j]).0 == i { let j = choose|j: int| 0 <= j < mg.len() && (#[trigger] mg[j]).0 == i; assert(mg[j] == cl1[w0 - 1 + j]); assert(sd(ns1[i]) == k); }
            }
        }
        assert(froms(ms, fs, al, k)) by { assert forall|e: int| 0 <= e < fs.len() implies al.contains((#[trigger] fs[e]).from.0 as int) && fs[e].from.0 < ms.len() && sd(ms[fs[e].from.0 as int]) < k && !fp(ms[fs[e].from.0 as int].flags) by { let g = fs[e].from.0 as int; assert(alike(mz[g], ms[g])); assert(sd(mz[g]) < k); if g != m { assert(dl(ns1[g], ms[g])); assert(dl(ns1[g], mz[g])); } } }
        assert forall|i: int, e: int| 0 <= i < ns0.len() && #[trigger] inb(ns0, es0, i, e) implies inb(ns1, es0, i, e) by { assert(inb(nsa, es0, i, e)); }
        assert forall|j: int, e: int| w0 - 1 <= j < cl1.len() && #[trigger] inb(ns1, es0, cl1[j].0 as int, e) implies redir(ms, fs, m, *ns0[cl1[j].0 as int].state, es0[e]) by {
            let jj = j - (w0 - 1);
            assert(mg[jj] == cl1[j]);
            assert(inb(ns1, es0, mg[jj].0 as int, e));
            let w = cl1[j].0 as int; assert(still(ns0[w], nsa[w])); assert(ns1[w] == nsa[w]);
            redir_grows(mz, fs, ms, fs, m, *ns1[w].state, es0[e]);
        }
        relax_done(ns0, es0, ns1, ms, fs, r, cl0, cl1, v, al, k, m, w0, rec);
        let bl = relayed(ms, al, v, k);
        assert forall|j: int| 0 <= j < v.len() implies ms[(#[trigger] v[j]).0 as int].theta == isize::MAX && !fp(ms[v[j].0 as int].flags) by {
            if v[j].0 != m || rec {
                let c = v[j].0 as int;
                if rec || j < w0 - 1 { assert(v[j] == cl1[j]); } 
                assert(c < ns0.len()); assert(still(ns0[c], ms[c]));
            } else { assert(still(ns1[m], ms[m])); }
        }
        assert(vth(ms)) by { assert forall|i: int| 0 <= i < ms.len() implies (#[trigger] ms[i]).value <= ms[i].theta by {
            if i != m { assert(dl(ns1[i], ms[i])); assert(ns1[i] == nsa[i]); assert(alike(ns0[i], nsa[i])); assert(still(ns0[i], nsa[i])); let _ = ns0[i]; }
            else if rec { assert(still(ns0[m], ms[m])); let q = choose|q: int| 0 <= q < w0 - 1 && #[trigger] cl1[q] == NodeId(m as usize); assert(ns0[cl1[q].0 as int].theta == isize::MAX); }
            else { assert(still(ns1[m], ms[m])); }
        } }
        Self::relax_dels(ns0, ns1, ms, al, cl0, cl1, mg, v, k, m, w0, rec);
    }
    pub proof fn relax_dels(ns0: Seq<Node<T>>, ns1: Seq<Node<T>>, ms: Seq<Node<T>>, al: ISet<int>, cl0: Seq<NodeId>, cl1: Seq<NodeId>, mg: Seq<NodeId>, v: Seq<NodeId>, k: int, m: int, mw: int, rec: bool)
        requires dels(ns0, al), lay_ids(ns0, al, cl0, k), forall|x: NodeId| cl1.contains(x) <==> #[trigger] cl0.contains(x), cl1.no_duplicates(), 1 <= mw < cl1.len(), ms.len() == ns1.len(), ns1.len() <= usize::MAX, alive_ok(ns0, al),
            mg == cl1.subrange(mw - 1, cl1.len() as int), forall|j: int| 0 <= j < cl0.len() ==> !fp(ns0[(#[trigger] cl0[j]).0 as int].flags),
            rec ==> ms.len() == ns0.len() && v == cl1.subrange(0, mw) && (exists|q: int| 0 <= q < mw - 1 && #[trigger] cl1[q] == NodeId(m as usize)) && 0 <= m < ns0.len(),
            !rec ==> ms.len() == ns0.len() + 1 && m == ns0.len() && v == cl1.subrange(0, mw - 1).push(NodeId(m as usize)),
            forall|i: int| 0 <= i < ns0.len() && i != m ==> fd((#[trigger] ns1[i]).flags) == fd(ns0[i].flags),
            forall|i: int| 0 <= i < ns0.len() ==> sd(#[trigger] ms[i]) == sd(ns0[i]) && fp(ms[i].flags) == fp(ns0[i].flags),
            rec ==> fd(ms[m].flags) == fd(ns0[m].flags), !rec ==> !fd(ms[m].flags),
            forall|i: int| 0 <= i < ns1.len() && i != m ==> fd((#[trigger] ms[i]).flags) == ((fd(ns1[i].flags) || exists|j: int| 0 <= j < mg.len() && (#[trigger] mg[j]).0 == i) && !(rec && i == cl1[mw - 1].0)),
        ensures dels(ms, relayed(ms, al, v, k))
    {
        let bl = relayed(ms, al, v, k);
        if !rec { assert(v[mw - 1] == NodeId(m as usize)); assert(v.contains(NodeId(m as usize))); }
        assert forall|i: int| 0 <= i < ms.len() implies fd((#[trigger] ms[i]).flags) == !bl.contains(i) by {
            let x = NodeId(i as usize);
            if i == m { if rec { let q = choose|q: int| 0 <= q < mw - 1 && #[trigger] cl1[q] == NodeId(m as usize); assert(v[q] == x); assert(cl1.contains(x)); assert(cl0.contains(x)); let p = choose|p: int| 0 <= p < cl0.len() && cl0[p] == x; assert(al.contains(cl0[p].0 as int)); let _ = ns0[m]; } }
            else {
                let _ = ns0[i]; let _ = ns1[i];
                if cl1.contains(x) {
                    assert(cl0.contains(x)); let p = choose|p: int| 0 <= p < cl0.len() && cl0[p] == x; assert(al.contains(cl0[p].0 as int)); assert(sd(ns0[i]) == k);
                    let q = choose|q: int| 0 <= q < cl1.len() && cl1[q] == x;
                    if q < mw - 1 {
                        assert(v[q] == x); assert(bl.contains(i));
                        if exists|j: int| 0 <= j < mg.len() && (#[trigger] mg[j]).0 == i { let j = choose|j: int| 0 <= j < mg.len() && (#[trigger] mg[j]).0 == i; assert(mg[j] == cl1[mw - 1 + j]); assert(cl1[mw - 1 + j] == cl1[q]); }
                    } else {
                        assert(mg[q - (mw - 1)] == x);
                        if rec && q == mw - 1 { assert(v[q] == x); assert(bl.contains(i)); }
                        else { 
                            if rec && i == cl1[mw - 1].0 { assert(cl1[mw - 1] == x); }
                            if v.contains(x) { let z = choose|z: int| 0 <= z < v.len() && v[z] == x; if rec || z < mw - 1 { assert(v[z] == cl1[z]); assert(z == q); } }
                            assert(!v.contains(x)); assert(!fp(ns0[cl0[p].0 as int].flags)); assert(!bl.contains(i));
                        }
                    }
                } else {
                    assert(!cl0.contains(x));
                    if exists|j: int| 0 <= j < mg.len() && (#[trigger] mg[j]).0 == i { let j = choose|j: int| 0 <= j < mg.len() && (#[trigger] mg[j]).0 == i; assert(mg[j] == cl1[mw - 1 + j]); assert(cl1.contains(x)); }
                    if rec && i == cl1[mw - 1].0 { assert(cl1[mw - 1] == x); }
                    if v.contains(x) { let z = choose|z: int| 0 <= z < v.len() && v[z] == x; if rec || z < mw - 1 { assert(v[z] == cl1[z]); assert(cl1.contains(x)); } }
                    assert(!v.contains(x));
                    if al.contains(i) && sd(ns0[i]) == k { assert(fp(ns0[i].flags)); }
                }
            }
        }
    }

@@fn src/mdd/with_barrier.rs {{impl<T> Barrier<T>}} has_exact_best_path
@@sig {{node: Option<NodeId>}} => {{node: Option<NodeId>, Ghost(r): Ghost<SP<T>>}}
@@rewrite {{self.has_exact_best_path($o:id.best.map(|$e:id| $...x))}} => {{self.has_exact_best_path(match $o.best { Some($e) => Some($x), None => None }, Ghost(r))}}
@@spec
    requires graph(self.nodes@, self.edges@, r), dr(r) >= 0, $p1 is Some ==> ($p1->0).0 < self.nodes@.len(),
    ensures ret && $p1 is Some ==> rpath(self.nodes@, self.edges@, sd(self.nodes@[($p1->0).0 as int]) - dr(r), ($p1->0).0 as int),
    decreases (match $p1 { Some(x) => sd(self.nodes@[x.0 as int]) - dr(r) + 1, None => 0 }),
@@entry
    proof {
        if $p1 is Some {
            let i = ($p1->0).0 as int; assert(nok(self.nodes@, self.edges@, r, i));
            if fx(self.nodes@[i].flags) { fx_path(self.nodes@, self.edges@, r, i); }
            if i > 0 { let b = hd(self.nodes@[i].best); assert(inb(self.nodes@, self.edges@, i, b)); assert(eok(self.nodes@, self.edges@, i, b)); assert(nok(self.nodes@, self.edges@, r, bpar(self.nodes@, self.edges@, i))); }
        }
    }
@@end

@@fn src/mdd/with_barrier.rs {{impl<T> Barrier<T>}} _is_exact
@@sig {{comp_type: CompilationType}} => {{comp_type: CompilationType, Ghost(r): Ghost<SP<T>>}}
@@rewrite {{self.has_exact_best_path($...e)}} => {{self.has_exact_best_path($e, Ghost(r))}}
@@spec
    requires graph(self.nodes@, self.edges@, r), dr(r) >= 0, self.best_n is Some ==> (self.best_n->0).0 < self.nodes@.len(),
    ensures ret ==> !self.approximate || ($p1 == CompilationType::Relaxed && (self.best_n is Some ==> rpath(self.nodes@, self.edges@, sd(self.nodes@[(self.best_n->0).0 as int]) - dr(r), (self.best_n->0).0 as int))),
        !ret ==> self.approximate,
@@end

@@fn src/mdd/with_barrier.rs {{impl<T> Barrier<T>}} _best_value
@@rewrite {{self.best_n.map(|$i:id| $...x)}} => {{match self.best_n { Some($i) => Some($x), None => None }}}
@@spec
    requires self.best_n is Some ==> (self.best_n->0).0 < self.nodes@.len(),
    ensures ret is Some == self.best_n is Some, ret is Some ==> ret->0 == self.nodes@[(self.best_n->0).0 as int].value,
@@end

@@fn src/mdd/with_barrier.rs {{impl<T> Barrier<T>}} _best_path_partial_borrow
@@sig {{root_pa: &[Decision], nodes: &[Node<T>], edges: &[Edge],}} => {{root_pa: &Vec<Decision>, nodes: &Vec<Node<T>>, edges: &Vec<Edge>, Ghost(r): Ghost<SP<T>>}}
@@rewrite {{root_pa.to_owned()}} => {{vp_owned(root_pa)}}
@@spec
    requires graph($p3@, $p4@, r), dr(r) >= 0, $p1.0 < $p3@.len(),
    ensures ret@.to_multiset() =~= $p2@.to_multiset().add(bp($p3@, $p4@, sd($p3@[$p1.0 as int]) - dr(r), $p1.0 as int).to_multiset()),
@@entry
    let ghost ns = $p3@; let ghost es = $p4@; let ghost mut c = $p1.0 as int;
    proof { assert(nok(ns, es, r, c)); }
@@loop {{while let Some($eid:id) = edge_id {}}
    invariant
        ns == nodes@, es == edges@, graph(ns, es, r), dr(r) >= 0, 0 <= c < ns.len(), edge_id == ns[c].best, nok(ns, es, r, c),
        sol@.to_multiset().add(bp(ns, es, sd(ns[c]) - dr(r), c).to_multiset()) =~= root_pa@.to_multiset().add(bp(ns, es, sd(ns[$p1.0 as int]) - dr(r), $p1.0 as int).to_multiset()),
    ensures edge_id is None,
    decreases sd(ns[c]) - dr(r)
@@after {{let edge = $...e;}}
    proof {
        let b = eid.0 as int; let p = es[b].from.0 as int;
        assert(inb(ns, es, c, b)); assert(eok(ns, es, c, b)); assert(nok(ns, es, r, p));
        let f = bp(ns, es, sd(ns[p]) - dr(r), p);
        assert(bp(ns, es, sd(ns[c]) - dr(r), c) == f.push(edge.decision));
        f.to_multiset_ensures(); sol@.to_multiset_ensures();
        assert(f.push(edge.decision).to_multiset() =~= f.to_multiset().insert(edge.decision));
        assert(sol@.push(edge.decision).to_multiset() =~= sol@.to_multiset().insert(edge.decision));
        c = p;
    }
@@afterloop {{while let Some($eid:id) = edge_id {}}
    proof { assert(c == 0); assert(bp(ns, es, sd(ns[c]) - dr(r), c) =~= Seq::<Decision>::empty()); Seq::<Decision>::empty().to_multiset_ensures(); assert(Seq::<Decision>::empty().to_multiset() =~= vstd::multiset::Multiset::<Decision>::empty()); }
@@end

@@fn src/mdd/with_barrier.rs {{impl<T> Barrier<T>}} _best_path
@@sig {{id: NodeId}} => {{id: NodeId, Ghost(r): Ghost<SP<T>>}}
@@rewrite {{_best_path_partial_borrow($...e)}} => {{_best_path_partial_borrow($e, Ghost(r))}}
@@spec
    requires graph(self.nodes@, self.edges@, r), dr(r) >= 0, $p1.0 < self.nodes@.len(),
    ensures ret@.to_multiset() =~= self.root_pa@.to_multiset().add(bp(self.nodes@, self.edges@, sd(self.nodes@[$p1.0 as int]) - dr(r), $p1.0 as int).to_multiset()),
@@end

@@fn src/mdd/with_barrier.rs {{impl<T> Barrier<T>}} _best_solution
@@sig {{(&self)}} => {{(&self, Ghost(r): Ghost<SP<T>>)}}
@@rewrite {{self.best_n.map(|$i:id| self._best_path($...x))}} => {{match self.best_n { Some($i) => Some(self._best_path($x, Ghost(r))), None => None }}}
@@spec
    requires self.best_n is Some ==> graph(self.nodes@, self.edges@, r) && dr(r) >= 0 && (self.best_n->0).0 < self.nodes@.len(),
    ensures ret is Some == self.best_n is Some, ret is Some ==> (ret->0)@.to_multiset() =~= self.root_pa@.to_multiset().add(bp(self.nodes@, self.edges@, sd(self.nodes@[(self.best_n->0).0 as int]) - dr(r), (self.best_n->0).0 as int).to_multiset()),
@@end

@@fn src/mdd/with_barrier.rs {{impl<T> Barrier<T>}} new
@@spec
    ensures ret.cutset_type == $p2, ret.barriers == $p1,
@@end
@@fn src/mdd/with_barrier.rs {{impl<T> Barrier<T>}} clear
@@spec
    requires obeys_key_model::<Arc<T>>(),
    ensures final(self).root_pa@.len() == 0, final(self).nodes@.len() == 0, final(self).edges@.len() == 0, final(self).next_l@ == Map::<Arc<T>, NodeId>::empty(), final(self).cutset@.len() == 0,
        final(self).best_n is None, !final(self).approximate, final(self).cutset_type == old(self).cutset_type, final(self).explored == 0, final(self).lel_depth is None, final(self).barriers == old(self).barriers,
@@end
@@fn src/mdd/with_barrier.rs {{impl<T> Barrier<T>}} try_update_barrier
@@sig {{explored: bool}} => {{explored: bool, Tracked(l): Tracked<&mut Log<T>>}}
@@rewrite {{self.barriers[$...d].read().get($...s).map_or($...a, |$i:id| {$...b})}} => {{match vp_peek(&self.barriers, $d, $s) { None => $a, Some($i) => {$b} }}}
@@rewrite {{self.barriers[$...d].write().insert($s:id, $...i);}} => {{vp_put(&self.barriers, $d, $s, $i, Tracked(l));}}
@@spec
    requires $p1 < old(self).barriers@.len(),
    ensures *final(self) == *old(self), final(l).seen == old(l).seen,
        final(l).pubs == old(l).pubs || (final(l).pubs == old(l).pubs.insert(Rec { s: *$p2, th: $p3 as int, ex: $p4 })
            && (old(self).cutset_type == CutsetType::LastExactLayer && old(self).lel_depth is Some ==> $p1 <= old(self).lel_depth->0)),
@@end
@@fn src/mdd/with_barrier.rs {{impl<T> Barrier<T>}} compute_local_bounds_and_theta
@@attr verifier::spinoff_prover
@@attr verifier::rlimit(100)
@@sig {{best_lb: isize}} => {{best_lb: isize, Ghost(r): Ghost<SP<T>>, Ghost(k0): Ghost<int>, Ghost(al): Ghost<ISet<int>>, Tracked(l): Tracked<&mut Log<T>>}}
@@rewrite {{for $id:id in self.next_l.values() {}} => {{let vp_t = vp_values(&self.next_l); for vp_i in 0..vp_t.len() { let $id = &vp_t[vp_i];}}
@@rewrite {{for $n:id in (0..self.nodes.len()).rev() {}} => {{let mut vp_j = self.nodes.len(); while vp_j > 0 { vp_j = vp_j - 1; let $n = vp_j;}}
@@rewrite* {{.min(}} => {{.vp_min(}}
@@rewrite* {{.max(}} => {{.vp_max(}}
@@rewrite {{self.try_update_barrier($...a)}} => {{self.try_update_barrier($a, Tracked(&mut *l))}}
@@spec
    requires
        model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, graph(old(self).nodes@, old(self).edges@, r), Self::below(old(self).nodes@, k0), dr(r) <= k0 <= nvars::<T>(), sorted(old(self).nodes@),
        Self::lay(old(self).nodes@, old(self).next_l@, k0), dels(old(self).nodes@, al), vth(old(self).nodes@), old(self).locked(),
        forall|i: int| 0 <= i < old(self).nodes@.len() ==> !fm((#[trigger] old(self).nodes@[i]).flags) && old(self).nodes@[i].value_bot == isize::MIN && old(self).nodes@[i].depth == sd(old(self).nodes@[i]),
        old(self).cutset_type == CutsetType::Frontier ==> old(self).lel_depth is None && old(self).cutset@.len() == 0 && forall|i: int| 0 <= i < old(self).nodes@.len() ==> !fc((#[trigger] old(self).nodes@[i]).flags),
    ensures
        Self::rest0(*old(self), *final(self)), final(self).next_l == old(self).next_l && final(self).edges == old(self).edges && final(self).approximate == old(self).approximate && final(self).lel_depth == old(self).lel_depth,
        final(l).seen == old(l).seen,
        locb_out(old(self).nodes@, final(self).nodes@, old(self).edges@, old(self).cutset@, final(self).cutset@, $p1 as int, old(self).cutset_type == CutsetType::Frontier, old(self).approximate, k0, old(self).next_l@, old(l).pubs, final(l).pubs, old(self).lel_depth),
@@entry
    let ghost ns0 = self.nodes@; let ghost es = self.edges@; let ghost cs0 = self.cutset@; let ghost fro = self.cutset_type == CutsetType::Frontier; let ghost nl = self.next_l@; let ghost apx = self.approximate;
    let ghost s0 = *self; let ghost lb = best_lb as int; let ghost p0 = l.pubs; let ghost see0 = l.seen; let ghost lel = self.lel_depth;
@@before {{for vp_i in 0..vp_t.len() {}}
    let ghost ks = choose|ks: Seq<Arc<T>>| #[trigger] listing(nl, ks, vp_t@);
    proof {
        assert forall|i: int| 0 <= i < ns0.len() implies 0 <= lim::<T>(nvars::<T>() - sd(#[trigger] ns0[i])) by { assert(nok(ns0, es, r, i)); lim_mono::<T>(0, nvars::<T>() - sd(ns0[i])); }
        assert forall|i: int| 0 <= i < ns0.len() implies bnode(ns0[i], #[trigger] ns0[i]) by { let _ = ns0[i]; }
    }
@@loop {{for vp_i in 0..vp_t.len() {}}
    invariant
        listing(nl, ks, vp_t@), Self::lay(ns0, nl, k0), l.pubs == p0, l.seen == see0, bnodes(ns0, self.nodes@), apx == self.approximate,
        self.edges@ == es, fro == (self.cutset_type == CutsetType::Frontier), Self::rest_cut(*self, s0),
        forall|i: int| 0 <= i < ns0.len() ==> 0 <= lim::<T>(nvars::<T>() - sd(#[trigger] ns0[i])),
        bcut(ns0, self.nodes@, es, cs0, self.cutset@, fro, apx, k0),
        forall|j: int| 0 <= j < vp_i ==> (#[trigger] vp_t@[j]).0 < self.nodes@.len() && bterm1(self.nodes@[vp_t@[j].0 as int], fro, apx),
@@after {{let node_id = &vp_t[vp_i];}}
    let ghost na = self.nodes@; let ghost csa = self.cutset@;
    proof { assert(nl.contains_key(ks[vp_i as int])); assert(alike(ns0[node_id.0 as int], na[node_id.0 as int])); }
@@endof {{for vp_i in 0..vp_t.len() {}}
    proof {
        let nn = self.nodes@; let x = node_id.0 as int;
        assert(vp_t@[vp_i as int].0 == x);
        assert(bnode(ns0[x], na[x])); 
        assert forall|i: int| 0 <= i < ns0.len() implies bnode(ns0[i], #[trigger] nn[i]) by { assert(bnode(ns0[i], na[i])); if i != x { assert(nn[i] == na[i]); } }
        if fro {
            assert forall|i: int| 0 <= i < nn.len() && fc((#[trigger] nn[i]).flags) implies self.cutset@.contains(NodeId(i as usize)) by {
                if i != x || !fx(nn[i].flags) { assert(fc(na[i].flags)); assert(csa.contains(NodeId(i as usize))); let q = choose|q: int| 0 <= q < csa.len() && csa[q] == NodeId(i as usize); assert(self.cutset@[q] == csa[q]); }
                else { assert(self.cutset@[csa.len() as int] == *node_id); }
            }
            assert forall|j: int| 0 <= j < self.cutset@.len() implies okcut(ns0, es, (#[trigger] self.cutset@[j]).0 as int, k0) && fc(nn[self.cutset@[j].0 as int].flags) by { if j < csa.len() { assert(self.cutset@[j] == csa[j]); let c = csa[j].0 as int; if c != x { assert(nn[c] == na[c]); } } }
        } else {
            assert forall|i: int| 0 <= i < nn.len() && fc((#[trigger] nn[i]).flags) implies fc(ns0[i].flags) || (!apx && sd(ns0[i]) == k0) by { if i != x { assert(nn[i] == na[i]); } let _ = na[i]; }
        }
        assert forall|j: int| 0 <= j < vp_i + 1 implies (#[trigger] vp_t@[j]).0 < nn.len() && bterm1(nn[vp_t@[j].0 as int], fro, apx) by { if vp_t@[j].0 != x { assert(nn[vp_t@[j].0 as int] == na[vp_t@[j].0 as int]); } }
    }
@@before {{while vp_j > 0 {}}
    proof {
        assert(self.nodes.len() == self.nodes@.len());
        assert(bterm(self.nodes@, nl, fro, apx)) by { assert forall|s: Arc<T>| #[trigger] nl.contains_key(s) implies nl[s].0 < self.nodes@.len() && bterm1(self.nodes@[nl[s].0 as int], fro, apx) by { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == s; assert(vp_t@[i] == nl[s]); } }
    }
@@loop {{while vp_j > 0 {}}
    invariant
        model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, graph(ns0, es, r), k0 <= nvars::<T>(), Self::below(ns0, k0), sorted(ns0), self.locked(), lb == best_lb, apx == self.approximate, lel == self.lel_depth, fro ==> lel is None,
        forall|i: int| 0 <= i < ns0.len() ==> (#[trigger] ns0[i]).depth == sd(ns0[i]), ns0.len() <= usize::MAX,
        self.edges@ == es, fro == (self.cutset_type == CutsetType::Frontier), Self::rest_cut(*self, s0), l.seen == see0,
        vp_j <= self.nodes@.len(), bnodes(ns0, self.nodes@), back(self.nodes@, es, lb, fro, vp_j as int), frecs(self.nodes@, p0, l.pubs, vp_j as int, lel),
        bterm(self.nodes@, nl, fro, apx), bcut(ns0, self.nodes@, es, cs0, self.cutset@, fro, apx, k0),
    decreases vp_j
@@after {{let $n:id = NodeId($m:id);}}
    let ghost nb = self.nodes@; let ghost j = node_id.0 as int;
    proof { frecs_down(nb, p0, l.pubs, j, lel); assert(bnode(ns0[j], nb[j])); assert(nok(ns0, es, r, j)); }
@@before {{if self.nodes[node_id.0].flags.is_exact() && !self.nodes[node_id.0].flags.is_pruned_by_barrier() {}}
    let ghost nc = self.nodes@; let ghost p1 = l.pubs;
    proof {
        assert(nc.len() == nb.len()); assert(forall|q: int| 0 <= q < nb.len() && q != j ==> #[trigger] nc[q] == nb[q]);
        assert(nc[j].state == nb[j].state); assert(nc[j].flags == nb[j].flags); assert(nc[j] == (Node { theta: nc[j].theta, ..nb[j] }));
        assert(fc(nb[j].flags) ==> nc[j].theta == if cutth(nb[j], lb) < nb[j].theta { cutth(nb[j], lb) } else { nb[j].theta as int });
        assert(!fc(nb[j].flags) ==> nc[j].theta == nb[j].theta);
        assert(bown(nb, nc, lb, j));
        bown_step(ns0, nb, nc, es, r, cs0, self.cutset@, fro, apx, k0, lb, j);
        frecs_same(nb, nc, p0, p1, j + 1, lel); frecs_down(nc, p0, p1, j, lel);
        back_up(nb, nc, es, lb, fro, j + 1); bterm_up(nb, nc, nl, fro, apx);
        graph_alike(ns0, nc, es, r, -1);
    }
@@before {{let mut inbound = self.nodes[node_id.0].inbound;}}
    proof {
        assert forall|q: Rec<T>| #[trigger] l.pubs.contains(q) implies p0.contains(q) || exists|i: int| #[trigger] frec(nc, q, j, lel, i) by {
            if !p1.contains(q) { assert(frec(nc, q, j, lel, j)); }
        }
        assert(frecs(nc, p0, l.pubs, j, lel));
    }
@@loop {{while let Some($eid:id) = inbound {}}
    invariant
        model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, graph(ns0, es, r), graph(nc, es, r), sorted(ns0), apx == self.approximate, ns0.len() <= usize::MAX, j == node_id.0, 0 <= j < ns0.len(), alike_all(ns0, nc),
        self.edges@ == es, fro == (self.cutset_type == CutsetType::Frontier), Self::rest_cut(*self, s0), l.seen == see0, frecs(nc, p0, l.pubs, j, lel),
        bnodes(ns0, self.nodes@), back(self.nodes@, es, lb, fro, j + 1), bterm(self.nodes@, nl, fro, apx), bcut(ns0, self.nodes@, es, cs0, self.cutset@, fro, apx, k0),
        forall|i: int| j <= i < nc.len() ==> nc[i] == #[trigger] self.nodes@[i], self.nodes@.len() == nc.len(),
        inbound is Some ==> inb(nc, es, j, hd(inbound)),
        forall|e: int| #[trigger] inb(nc, es, j, e) ==> (inbound is Some && inl(es, hd(inbound), e)) || bclosed1(self.nodes@, es, fro, j, e),
    ensures inbound is None,
    decreases hd(inbound) + 1
@@after {{let edge = self.edges[edge_id.0];}}
    let ghost np = self.nodes@; let ghost f = edge.from.0 as int; let ghost h = edge_id.0 as int; let ghost csp = self.cutset@;
    proof { assert(eok(nc, es, j, h)); assert(f < nc.len()); assert(inb(ns0, es, j, h)); assert(eok(ns0, es, j, h)); 
        assert(f != j); assert(bnode(ns0[j], np[j])); assert(bnode(ns0[f], np[f])); }
@@before {{inbound = edge.next;}}
    proof {
        let nn = self.nodes@;
        assert(self.nodes.len() == nn.len());
        assert(bstep1(np, nn, es, csp, self.cutset@, fro, j, h));
        bstep(ns0, np, nn, es, r, cs0, csp, self.cutset@, fro, apx, k0, j, h);
        back_up(np, nn, es, lb, fro, j + 1); bterm_up(np, nn, nl, fro, apx);
        assert forall|e: int| #[trigger] inb(nc, es, j, e) implies (es[h].next is Some && inl(es, hd(es[h].next), e)) || bclosed1(nn, es, fro, j, e) by {
            assert(!inl(es, -1, e)); assert(inb(ns0, es, j, e));
            if !inl(es, h, e) { assert(bclosed1(np, es, fro, j, e)); }
        }
        if es[h].next is Some { inl_tail(es, hd(nc[j].inbound), h); }
    }
@@afterloop {{while let Some($eid:id) = inbound {}}
    proof {
        let nn = self.nodes@;
        assert(bclosed(nn, es, fro, j)) by { assert forall|e: int| #[trigger] inb(nn, es, j, e) implies bclosed1(nn, es, fro, j, e) by { assert(inb(nc, es, j, e)); } }
        assert(back(nn, es, lb, fro, j)) by { assert forall|i: int| j <= i < nn.len() && !fd((#[trigger] nn[i]).flags) implies bclosed(nn, es, fro, i) && (fc(nn[i].flags) ==> nn[i].theta <= cutth(nn[i], lb)) by { let _ = nc[i]; } }
        frecs_same(nc, nn, p0, l.pubs, j, lel);
    }
@@end
    /// the whole invariant of the compilation
    pub open spec fn cinv(a: Self, r: SP<T>, al: ISet<int>, all: bool, on: bool, lc: int, k: int, lb: int, dd: bool, seen: ISet<Rec<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, ek: int) -> bool {
        &&& dinv(a.nodes@, a.edges@, r, al, a.cutset@, all, on, lc, k) && delx(a.nodes@, al, dd) && pok(a.nodes@, seen) && erecs(a.nodes@, al, lb, p0, pubs, ek) && !fp(a.nodes@[0].flags)
        &&& a.lel_depth == (if on { Some(lc as usize) } else { None })
    }
    pub proof fn branch_cinv(a: Self, b: Self, r: SP<T>, from: NodeId, d: Decision, al: ISet<int>, cl: Seq<NodeId>, all: bool, on: bool, lc: int, k: int, lb: int, dd: bool, seen: ISet<Rec<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, ek: int)
        requires Self::branched(a, b, r, from, d), Self::cinv(a, r, al, all, on, lc, k, lb, dd, seen, p0, pubs, ek), from.0 < a.nodes@.len(), k == sd(a.nodes@[from.0 as int]) + 1, layer(a.nodes@, al, a.next_l@, k), lay_ids(a.nodes@, al, cl, k - 1), on ==> lc < k - 1, al.contains(from.0 as int), model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, -big() <= r.value <= big(), a.nodes@.len() <= usize::MAX, !fp(a.nodes@[from.0 as int].flags), ek <= k, newl(a.nodes@, a.edges@, k),
        ensures ({ let w = b.next_l@[kid(a.nodes@[from.0 as int], d)].0 as int; Self::cinv(b, r, al.insert(w), all, on, lc, k, lb, dd, seen, p0, pubs, ek) }), b.nodes@[0] == a.nodes@[0],
    {
        Self::branched_inv(a, b, r, from, d, al, cl, all, on, lc, lb, seen, p0, pubs, dd, ek);
        assert(nok(a.nodes@, a.edges@, r, 0)); assert(b.nodes@[0] == a.nodes@[0]);
    }
    pub open spec fn mine(a: Self, b: Self) -> bool { a.root_pa == b.root_pa && a.best_n == b.best_n && a.barriers == b.barriers && a.exact == b.exact && a.cutset_type == b.cutset_type && a.approximate == b.approximate }
    /// the nodes of v still to come have no threshold
    pub open spec fn todo(ns: Seq<Node<T>>, v: Seq<NodeId>, n: int) -> bool { forall|j: int| n <= j < v.len() ==> ns[(#[trigger] v[j]).0 as int].theta == isize::MAX }
    /// the nodes of v0 before n that were not pruned are in v
    pub open spec fn kept(ns0: Seq<Node<T>>, ns: Seq<Node<T>>, v0: Seq<NodeId>, n: int, v: Seq<NodeId>) -> bool {
        &&& v.no_duplicates()
        &&& forall|j: int| 0 <= j < v.len() ==> ns[(#[trigger] v[j]).0 as int] == ns0[v[j].0 as int] && exists|q: int| 0 <= q < n && #[trigger] v0[q] == v[j]
        &&& forall|q: int| 0 <= q < n && !fp(ns[(#[trigger] v0[q]).0 as int].flags) ==> v.contains(v0[q])
        &&& forall|q: int| n <= q < v0.len() ==> ns[(#[trigger] v0[q]).0 as int] == ns0[v0[q].0 as int]
    }
    pub proof fn prune_step(a: Self, b: Self, r: SP<T>, al: ISet<int>, all: bool, on: bool, lc: int, k: int, lb: int, dd: bool, see1: ISet<Rec<T>>, see2: ISet<Rec<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, ek: int, ns0: Seq<Node<T>>, v0: Seq<NodeId>, n: int, v: Seq<NodeId>, nl0: Map<Arc<T>, NodeId>)
        requires Self::cinv(a, r, al, all, on, lc, k, lb, dd, see1, p0, pubs, ek), layer(a.nodes@, al, nl0, k), on ==> lc < k, ek <= k, k > dr(r), Self::kept(ns0, a.nodes@, v0, n, v), 0 <= n < v0.len(), v0.no_duplicates(), see1.subset_of(see2),
            lay_ids(ns0, al, v0, k), alike_all(ns0, a.nodes@), a.edges == b.edges, a.cutset == b.cutset, a.lel_depth == b.lel_depth,
            touched(a.nodes@, b.nodes@, v0[n].0 as int), a.nodes@[v0[n].0 as int].rub == b.nodes@[v0[n].0 as int].rub, fp(b.nodes@[v0[n].0 as int].flags), by_rec(see2, b.nodes@[v0[n].0 as int]),
        ensures Self::cinv(b, r, al, all, on, lc, k, lb, dd, see2, p0, pubs, ek), layer(b.nodes@, al, nl0, k), Self::kept(ns0, b.nodes@, v0, n + 1, v), alike_all(ns0, b.nodes@),
            forall|u: int| 0 <= u < a.nodes@.len() && #[trigger] covered(a.nodes@, a.edges@, al, lb, u) ==> covered(b.nodes@, a.edges@, al, lb, u),
    {
        let ns = a.nodes@; let ms = b.nodes@; let i = v0[n].0 as int;
        assert(alike(ns0[i], ns[i])); assert(nfresh(ns, r, all, i)); assert(nok(ns, a.edges@, r, i)); assert(nok(ns, a.edges@, r, 0)); assert(i != 0);
        touch_step(ns, a.edges@, r, al, a.cutset@, all, on, lc, k, ms, i, nl0, v0, k, lb);
        touch_rest(ns, ms, i, al, dd, see1, see2, lb, p0, pubs, ek);
        assert forall|j: int| 0 <= j < ns0.len() implies alike(ns0[j], #[trigger] ms[j]) by { assert(alike(ns0[j], ns[j])); assert(alike(ns[j], ms[j])); }
        assert forall|j: int| 0 <= j < v.len() implies ms[(#[trigger] v[j]).0 as int] == ns0[v[j].0 as int] && exists|q: int| 0 <= q < n + 1 && #[trigger] v0[q] == v[j] by {
            let q = choose|q: int| 0 <= q < n && #[trigger] v0[q] == v[j]; assert(v0[q] != v0[n]); assert(v0[q].0 < ns0.len()); assert(v[j].0 != i);
        }
        assert forall|q: int| 0 <= q < n + 1 && !fp(ms[(#[trigger] v0[q]).0 as int].flags) implies v.contains(v0[q]) by { assert(v0[q].0 < ns0.len()); if q < n { assert(v0[q] != v0[n]); assert(ms[v0[q].0 as int] == ns[v0[q].0 as int]); } }
        assert forall|q: int| n + 1 <= q < v0.len() implies ms[(#[trigger] v0[q]).0 as int] == ns0[v0[q].0 as int] by { assert(v0[q].0 < ns0.len()); assert(v0[q] != v0[n]); }
    }
    pub open spec fn mkrec(s: Arc<T>, th: int) -> Rec<T> { Rec { s: *s, th, ex: false } }
    pub proof fn pok_more(ns: Seq<Node<T>>, a: ISet<Rec<T>>, b: ISet<Rec<T>>)
        requires pok(ns, a), a.subset_of(b)
        ensures pok(ns, b)
    { assert forall|i: int| 0 <= i < ns.len() && fp((#[trigger] ns[i]).flags) implies by_rec(b, ns[i]) by { assert(by_rec(a, ns[i])); let q = choose|q: Rec<T>| #[trigger] a.contains(q) && q.s == *ns[i].state && q.th >= ns[i].theta; assert(b.contains(q)); } }
    pub proof fn keep_step(ns0: Seq<Node<T>>, ns: Seq<Node<T>>, al: ISet<int>, k: int, v0: Seq<NodeId>, n: int, v: Seq<NodeId>)
        requires Self::kept(ns0, ns, v0, n, v), 0 <= n < v0.len(), v0.no_duplicates()
        ensures Self::kept(ns0, ns, v0, n + 1, v.push(v0[n]))
    {
        let w = v.push(v0[n]);
        assert forall|j: int| 0 <= j < w.len() implies ns[(#[trigger] w[j]).0 as int] == ns0[w[j].0 as int] && exists|q: int| 0 <= q < n + 1 && #[trigger] v0[q] == w[j] by {
            if j < v.len() { assert(w[j] == v[j]); let q = choose|q: int| 0 <= q < n && #[trigger] v0[q] == v[j]; } else { assert(v0[n] == w[j]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies w[i] != w[j] by { if j == v.len() { assert(w[i] == v[i]); let q = choose|q: int| 0 <= q < n && #[trigger] v0[q] == v[i]; assert(v0[q] != v0[n]); } }
        assert forall|q: int| 0 <= q < n + 1 && !fp(ns[(#[trigger] v0[q]).0 as int].flags) implies w.contains(v0[q]) by {
            if q < n { assert(v.contains(v0[q])); let p = choose|p: int| 0 <= p < v.len() && v[p] == v0[q]; assert(w[p] == v0[q]); } else { assert(w[v.len() as int] == v0[q]); }
        }
    }
    pub proof fn prune_done(ns0: Seq<Node<T>>, ns: Seq<Node<T>>, al: ISet<int>, k: int, v0: Seq<NodeId>, v: Seq<NodeId>)
        requires Self::kept(ns0, ns, v0, v0.len() as int, v), lay_ids(ns0, al, v0, k), alike_all(ns0, ns), ns.len() <= usize::MAX, forall|i: int| 0 <= i < ns0.len() && sd(ns0[i]) == k ==> !fp((#[trigger] ns0[i]).flags)
        ensures lay_ids(ns, al, v, k)
    {
        assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).0 < ns.len() && al.contains(v[j].0 as int) && sd(ns[v[j].0 as int]) == k by { let q = choose|q: int| 0 <= q < v0.len() && #[trigger] v0[q] == v[j]; assert(v0[q].0 < ns0.len()); assert(alike(ns0[v0[q].0 as int], ns[v0[q].0 as int])); }
        assert forall|i: int| 0 <= i < ns.len() && #[trigger] al.contains(i) && sd(ns[i]) == k && !fp(ns[i].flags) implies v.contains(NodeId(i as usize)) by {
            assert(alike(ns0[i], ns[i]));
            let x = NodeId(i as usize);
            if v0.contains(x) { let q = choose|q: int| 0 <= q < v0.len() && v0[q] == x; assert(ns[v0[q].0 as int] == ns[i]); assert(v.contains(v0[q])); } else { assert(!fp(ns0[i].flags)); }
        }
    }
    /// node u of layer k has a new bound and threshold
    pub proof fn node_touch(a: Self, b: Self, r: SP<T>, al: ISet<int>, all: bool, on: bool, lc: int, k: int, lb: int, dd: bool, seen: ISet<Rec<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, ek: int, cl: Seq<NodeId>, j: int)
        requires Self::cinv(a, r, al, all, on, lc, k + 1, lb, dd, seen, p0, pubs, ek), layer(a.nodes@, al, a.next_l@, k + 1), newl(a.nodes@, a.edges@, k + 1), lay_ids(a.nodes@, al, cl, k), nofp(a.nodes@, cl), 0 <= j < cl.len(), on ==> lc < k, Self::todo(a.nodes@, cl, j),
            touched(a.nodes@, b.nodes@, cl[j].0 as int), fp(a.nodes@[cl[j].0 as int].flags) == fp(b.nodes@[cl[j].0 as int].flags), rubok(b.nodes@[cl[j].0 as int]), a.edges == b.edges, a.cutset == b.cutset, a.lel_depth == b.lel_depth, a.next_l == b.next_l,
        ensures Self::cinv(b, r, al, all, on, lc, k + 1, lb, dd, seen, p0, pubs, ek), layer(b.nodes@, al, a.next_l@, k + 1), newl(b.nodes@, a.edges@, k + 1), lay_ids(b.nodes@, al, cl, k), nofp(b.nodes@, cl), Self::todo(b.nodes@, cl, j + 1),
            forall|u: int| 0 <= u < a.nodes@.len() && #[trigger] covered(a.nodes@, a.edges@, al, lb, u) ==> covered(b.nodes@, a.edges@, al, lb, u),
            alike_all(a.nodes@, b.nodes@),
    {
        let ns = a.nodes@; let ms = b.nodes@; let i = cl[j].0 as int;
        touch_step(ns, a.edges@, r, al, a.cutset@, all, on, lc, k + 1, ms, i, a.next_l@, cl, k, lb);
        touch_rest(ns, ms, i, al, dd, seen, seen, lb, p0, pubs, ek);
        assert forall|q: int| 0 <= q < cl.len() implies !fp(ms[(#[trigger] cl[q]).0 as int].flags) by { if cl[q].0 != i { assert(ms[cl[q].0 as int] == ns[cl[q].0 as int]); } }
        assert forall|q: int| j + 1 <= q < cl.len() implies ms[(#[trigger] cl[q]).0 as int].theta == isize::MAX by { assert(cl[q] != cl[j]); assert(ms[cl[q].0 as int] == ns[cl[q].0 as int]); }
    }
    pub proof fn rpath_alike(ns: Seq<Node<T>>, ms: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, i: int)
        requires graph(ns, es, r), alike_all(ns, ms), 0 <= i < ns.len(), rpath(ns, es, sd(ns[i]) - dr(r), i)
        ensures rpath(ms, es, sd(ns[i]) - dr(r), i)
        decreases sd(ns[i]) - dr(r)
    {
        assert(nok(ns, es, r, i)); assert(alike(ns[i], ms[i]));
        if sd(ns[i]) - dr(r) > 0 {
            let b = hd(ns[i].best); assert(i > 0); assert(inb(ns, es, i, b)); assert(eok(ns, es, i, b)); let p = bpar(ns, es, i);
            assert(alike(ns[p], ms[p]));
            Self::rpath_alike(ns, ms, es, r, p);
        }
    }
    /// somebody in the layer above was not pruned
    pub proof fn has_prev(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, k: int, v: Seq<NodeId>, p: Seq<NodeId>)
        requires graph(ns, es, r), froms(ns, es, al, k), lay_ids(ns, al, v, k), v.len() > 0, lay_ids(ns, al, p, k - 1), k > dr(r)
        ensures p.len() > 0
    {
        let i = v[0].0 as int; assert(nok(ns, es, r, i)); assert(nok(ns, es, r, 0)); assert(i != 0);
        let b = hd(ns[i].best); assert(inb(ns, es, i, b)); assert(eok(ns, es, i, b)); let f = es[b].from.0 as int; let _ = es[b];
        assert(al.contains(f)); assert(p.contains(NodeId(f as usize)));
    }

    pub open spec fn prep(s: Self, r: SP<T>, al: ISet<int>, all: bool, on: bool, lc: int, k: int, lb: int, dd: bool, seen: ISet<Rec<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, ek: int, cl0: Seq<NodeId>, cl: Seq<NodeId>, xs: Set<int>, mode: bool) -> bool {
        &&& Self::cinv(s, r, al, all, on, lc, k, lb, dd, seen, p0, pubs, ek) && lay_ids(s.nodes@, al, cl, k) && nofp(s.nodes@, cl) && Self::todo(s.nodes@, cl, 0)
        &&& (mode ==> all_cov(s.nodes@, s.edges@, al, lb, k)) && lay_ids(s.nodes@, al, cl0, k - 1) && nofp(s.nodes@, cl0) && seen_ok(s.nodes@, xs, k, Seq::<NodeId>::empty(), 0)
        &&& cl.len() > 0 && k > dr(r) ==> cl0.len() > 0
    }
    pub open spec fn ready(s: Self, r: SP<T>, al: ISet<int>, all: bool, on: bool, lc: int, k: int, lb: int, dd: bool, seen: ISet<Rec<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, ek: int, cl: Seq<NodeId>, xs: Set<int>, mode: bool) -> bool {
        &&& Self::cinv(s, r, al, all, on, lc, k + 1, lb, dd, seen, p0, pubs, ek) && lay_ids(s.nodes@, al, cl, k) && nofp(s.nodes@, cl) && Self::todo(s.nodes@, cl, 0)
        &&& layer(s.nodes@, al, s.next_l@, k + 1) && newl(s.nodes@, s.edges@, k + 1)
        &&& (mode ==> cov_upto(s.nodes@, s.edges@, al, lb, k, cl, 0)) && seen_ok(s.nodes@, xs, k, cl, 0)
    }
    pub proof fn kept_start(ns: Seq<Node<T>>, v: Seq<NodeId>)
        ensures Self::kept(ns, ns, v, 0, Seq::<NodeId>::empty()), alike_all(ns, ns)
    { }
    /// the layer as it is taken from the map
    pub proof fn drain_step(s0: Self, s: Self, r: SP<T>, al: ISet<int>, all: bool, on: bool, lc: int, k: int, lb: int, dd: bool, seen: ISet<Rec<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, ek: int, nl: Map<Arc<T>, NodeId>, ks: Seq<Arc<T>>, v: Seq<NodeId>, mode: bool)
        requires Self::cinv(s0, r, al, all, on, lc, k, lb, dd, seen, p0, pubs, ek), s0.nodes == s.nodes, s0.edges == s.edges, s0.cutset == s.cutset, s0.lel_depth == s.lel_depth, layer(s.nodes@, al, nl, k), newl(s.nodes@, s.edges@, k), listing(nl, ks, v), mode ==> all_cov(s.nodes@, s.edges@, al, lb, k), s.best_n is None, !mode ==> pubs == p0,
        ensures Self::cinv(s, r, al, all, on, lc, k, lb, dd, seen, p0, pubs, ek), graph(s.nodes@, s.edges@, r), lay_ids(s.nodes@, al, v, k), Self::todo(s.nodes@, v, 0), v.no_duplicates(), v.len() > 0 ==> nl.dom().len() > 0, on ==> lc < k,
            v.len() == 0 ==> rec_best(s.nodes@, s.best_n, r, lb, seen, p0, pubs) && p0.subset_of(pubs) && (mode ==> forall|y: int| #[trigger] rch(*r.state, y) && r.value + y > lb ==> bestge(s.nodes@, s.best_n, r.value + y) || exc(seen, r.value + y, dr(r) + 1)),
    {
        drained(s.nodes@, al, nl, k, ks, v);
        if v.len() == 0 {
            reveal(erecs);
            assert forall|i: int| #[trigger] al.contains(i) implies sd(s.nodes@[i]) != k by { let _ = s.nodes@[i]; }
            if mode {
                bcompiled_best(s.nodes@, s.edges@, r, al, s.cutset@, all, on, lc, k, lb, seen, s.best_n);
                bcompiled_early(s.nodes@, s.edges@, r, al, lb, k, seen, s.best_n, p0, pubs, ek);
            }
        } else { assert(nl.contains_key(ks[0])); assert(nl.dom().contains(ks[0])); }
        assert forall|j: int| 0 <= j < v.len() implies s.nodes@[(#[trigger] v[j]).0 as int].theta == isize::MAX by { let _ = s.nodes@[v[j].0 as int]; }
    }
    /// all nodes of the layer were processed
    pub proof fn layer_done(s: Self, al: ISet<int>, lb: int, k: int, cl: Seq<NodeId>, xs: Set<int>, mode: bool)
        requires mode ==> cov_upto(s.nodes@, s.edges@, al, lb, k, cl, cl.len() as int), seen_ok(s.nodes@, xs, k, cl, cl.len() as int), lay_ids(s.nodes@, al, cl, k), s.nodes@.len() <= usize::MAX, alive_ok(s.nodes@, al),
        ensures mode ==> all_cov(s.nodes@, s.edges@, al, lb, k + 1), seen_ok(s.nodes@, xs, k + 1, Seq::<NodeId>::empty(), 0)
    {
        let ns = s.nodes@;
        if mode {
            assert forall|x: int| #[trigger] al.contains(x) && sd(ns[x]) < k + 1 implies covered(ns, s.edges@, al, lb, x) by {
                if sd(ns[x]) == k && !fp(ns[x].flags) { assert(cl.contains(NodeId(x as usize))); let j = choose|j: int| 0 <= j < cl.len() && cl[j] == NodeId(x as usize); assert(cl[j].0 == x); }
            }
        }
        assert forall|i: int| #[trigger] xs.contains(i) implies 0 <= i < ns.len() && sd(ns[i]) < k + 1 by { if !(sd(ns[i]) < k) { let j = choose|j: int| 0 <= j < cl.len() && (#[trigger] cl[j]).0 == i; assert(sd(ns[cl[j].0 as int]) == k); } }
    }
    /// the layer before it is restricted or relaxed
    pub proof fn to_match(sa: Self, s: Self, r: SP<T>, al: ISet<int>, all: bool, on: bool, lc: int, k: int, lb: int, dd: bool, seen: ISet<Rec<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, ek: int, cl0: Seq<NodeId>, cla: Seq<NodeId>, cl: Seq<NodeId>, xs: Set<int>, mode: bool)
        requires
            Self::cinv(s, r, al, all, on, lc, k, lb, dd, seen, p0, pubs, ek), newl(sa.nodes@, sa.edges@, k), s.edges == sa.edges, alike_all(sa.nodes@, s.nodes@), s.nodes@.len() <= usize::MAX,
            forall|i: int| 0 <= i < sa.nodes@.len() && sd(sa.nodes@[i]) != k ==> #[trigger] s.nodes@[i] == sa.nodes@[i],
            Self::kept(sa.nodes@, s.nodes@, cla, cla.len() as int, cl) || (s.nodes == sa.nodes && cl == cla && Self::todo(sa.nodes@, cla, 0)), lay_ids(sa.nodes@, al, cla, k), lay_ids(sa.nodes@, al, cl0, k - 1), nofp(sa.nodes@, cl0), seen_ok(sa.nodes@, xs, k, Seq::<NodeId>::empty(), 0),
            mode ==> all_cov(sa.nodes@, sa.edges@, al, lb, k), forall|u: int| 0 <= u < sa.nodes@.len() && #[trigger] covered(sa.nodes@, sa.edges@, al, lb, u) ==> covered(s.nodes@, sa.edges@, al, lb, u),
        ensures Self::prep(s, r, al, all, on, lc, k, lb, dd, seen, p0, pubs, ek, cl0, cl, xs, mode),
            forall|i: int| 0 <= i < s.nodes@.len() ==> (#[trigger] s.nodes@[i]).depth == sd(s.nodes@[i]) && s.nodes@[i].value <= s.nodes@[i].theta,
            graph(s.nodes@, s.edges@, r), Self::below(s.nodes@, k), alive_ok(s.nodes@, al), froms(s.nodes@, s.edges@, al, k), lay_ids(s.nodes@, al, cl, k), cl.no_duplicates(), vth(s.nodes@), dd ==> dels(s.nodes@, al),
            forall|j: int| 0 <= j < cl.len() ==> s.nodes@[(#[trigger] cl[j]).0 as int].theta == isize::MAX && !fp(s.nodes@[cl[j].0 as int].flags),
            forall|j: int| 0 <= j < cl0.len() ==> (#[trigger] cl0[j]).0 < s.nodes@.len() && sd(s.nodes@[cl0[j].0 as int]) == k - 1,
    {
        let ns = s.nodes@; let na = sa.nodes@;
        assert forall|i: int| 0 <= i < na.len() && sd(na[i]) == k implies !fp((#[trigger] na[i]).flags) by { }
        if Self::kept(na, ns, cla, cla.len() as int, cl) { Self::prune_done(na, ns, al, k, cla, cl); }
        assert forall|j: int| 0 <= j < cl.len() implies !fp(ns[(#[trigger] cl[j]).0 as int].flags) && ns[cl[j].0 as int].theta == isize::MAX by { let x = cl[j].0 as int; assert(ns[x] == na[x]); assert(alike(na[x], ns[x])); let _ = na[x]; }
        if mode { assert forall|u: int| #[trigger] al.contains(u) && sd(ns[u]) < k implies covered(ns, s.edges@, al, lb, u) by { assert(alike(na[u], ns[u])); assert(covered(na, sa.edges@, al, lb, u)); } }
        assert forall|j: int| 0 <= j < cl0.len() implies (#[trigger] cl0[j]).0 < ns.len() && al.contains(cl0[j].0 as int) && sd(ns[cl0[j].0 as int]) == k - 1 && !fp(ns[cl0[j].0 as int].flags) by { let i = cl0[j].0 as int; assert(!fp(na[i].flags)); assert(ns[i] == na[i]); }
        assert forall|i: int| 0 <= i < ns.len() && #[trigger] al.contains(i) && sd(ns[i]) == k - 1 && !fp(ns[i].flags) implies cl0.contains(NodeId(i as usize)) by { assert(alike(na[i], ns[i])); assert(ns[i] == na[i]); }
        assert forall|i: int| #[trigger] xs.contains(i) implies 0 <= i < ns.len() && sd(ns[i]) < k by { assert(alike(na[i], ns[i])); }
        if cl.len() > 0 && k > dr(r) { Self::has_prev(ns, s.edges@, r, al, k, cl, cl0); }
        assert forall|i: int| 0 <= i < ns.len() implies (#[trigger] ns[i]).depth == sd(ns[i]) && ns[i].value <= ns[i].theta by { assert(nfresh(ns, r, all, i)); }
    }
    pub proof fn after_none(s: Self, r: SP<T>, al: ISet<int>, all: bool, on: bool, lc: int, k: int, lb: int, dd: bool, seen: ISet<Rec<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, ek: int, cl0: Seq<NodeId>, cl: Seq<NodeId>, xs: Set<int>, mode: bool)
        requires Self::prep(s, r, al, all, on, lc, k, lb, dd, seen, p0, pubs, ek, cl0, cl, xs, mode), ek == if on { lc + 1 } else { k }, k < nvars::<T>(), s.next_l@ == Map::<Arc<T>, NodeId>::empty(),
        ensures Self::ready(s, r, al, all, on, lc, k, lb, dd, seen, p0, pubs, if on { lc + 1 } else { k + 1 }, cl, xs, mode), on ==> lc < k,
    {
        dinv_down(s.nodes@, s.edges@, r, al, s.cutset@, all, on, lc, k);
        erecs_keep(s.nodes@, al, s.nodes@, al, lb, p0, pubs, ek, if on { lc + 1 } else { k + 1 });
    }
    pub proof fn after_restrict(s: Self, t: Self, r: SP<T>, al: ISet<int>, all: bool, lc: int, k: int, lb: int, seen: ISet<Rec<T>>, p0: ISet<Rec<T>>, ek: int, cl0: Seq<NodeId>, cl: Seq<NodeId>, xs: Set<int>, mode: bool, v: Seq<NodeId>)
        requires Self::prep(s, r, al, true, false, lc, k, lb, false, seen, p0, p0, ek, cl0, cl, xs, mode), k < nvars::<T>(), t.next_l@ == Map::<Arc<T>, NodeId>::empty(), s.nodes@.len() <= usize::MAX,
            t.nodes == s.nodes, t.edges == s.edges, t.cutset == s.cutset, t.lel_depth == s.lel_depth, v.no_duplicates(), forall|x: NodeId| #[trigger] v.contains(x) ==> cl.contains(x), cl.len() > 1,
        ensures Self::ready(t, r, relayed(s.nodes@, al, v, k), true, false, lc, k, lb, false, seen, p0, p0, k + 1, v, xs, false), k > dr(r),
    {
        let ns = s.nodes@; let bl = relayed(ns, al, v, k);
        restricted(ns, s.edges@, r, al, s.cutset@, lc, k, v, cl);
        erecs_same(ns, bl, lb, p0, k + 1);
        dinv_down(ns, s.edges@, r, bl, s.cutset@, true, false, lc, k);
        assert forall|j: int| 0 <= j < v.len() implies !fp(ns[(#[trigger] v[j]).0 as int].flags) && ns[v[j].0 as int].theta == isize::MAX by { assert(v.contains(v[j])); let q = choose|q: int| 0 <= q < cl.len() && cl[q] == v[j]; }
    }
    pub proof fn after_relax(s: Self, t: Self, r: SP<T>, al: ISet<int>, lel: bool, lc: int, k: int, lb: int, seen: ISet<Rec<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, ek: int, cl0: Seq<NodeId>, cl: Seq<NodeId>, xs: Set<int>, v: Seq<NodeId>)
        requires Self::prep(s, r, al, !s.approximate, lel && s.approximate, lc, k, lb, true, seen, p0, pubs, ek, cl0, cl, xs, true), dr(r) + 1 < k < nvars::<T>(), t.next_l@ == Map::<Arc<T>, NodeId>::empty(), t.nodes@.len() <= usize::MAX,
            Self::relaxed(s, t, r, al, k, v), ek == if lel && s.approximate { lc + 1 } else { k }, lel == (s.cutset_type == CutsetType::LastExactLayer), s.prev_l@ == cl0, cl.len() > 0, model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, -big() <= r.value <= big(),
        ensures ({ let lc2 = if s.approximate { lc } else { k - 1 }; Self::ready(t, r, relayed(t.nodes@, al, v, k), false, lel, lc2, k, lb, true, seen, p0, pubs, if lel { lc2 + 1 } else { k + 1 }, v, xs, true) && (lel ==> lc2 < k) }),
    {
        let ns = s.nodes@; let ms = t.nodes@; let bl = relayed(ms, al, v, k); let lc2 = if s.approximate { lc } else { k - 1 };
        Self::relaxed_inv(s, t, r, al, k, v, lel, lc, lb, seen, p0, pubs, ek);
        assert forall|i: int| #[trigger] xs.contains(i) implies 0 <= i < ms.len() && sd(ms[i]) < k by { assert(still(ns[i], ms[i])); }
        assert(nok(ns, s.edges@, r, 0)); assert(still(ns[0], ms[0]));
        dinv_down(ms, t.edges@, r, bl, t.cutset@, false, lel, lc2, k);
        erecs_keep(ms, bl, ms, bl, lb, p0, pubs, ek, if lel { lc2 + 1 } else { k + 1 });
        assert(Self::todo(ms, v, 0) && nofp(ms, v));
    }

@@fn src/mdd/with_barrier.rs {{impl<T> Barrier<T>}} _compile
@@attr verifier::spinoff_prover
@@attr verifier::rlimit(200)
@@sig {{input: &CompilationInput<P, R, O>}} => {{input: &CompilationInput<P, R, O>, Tracked(l): Tracked<&mut Log<T>>}}
@@rewrite {{input.residual.path.iter().copied().for_each(|$x:id| self.root_pa.push($y:id));}} => {{for vp_i in 0..input.residual.path.len() { let $x = input.residual.path[vp_i]; self.root_pa.push($y); }}}
@@rewrite {{input.problem.next_variable(&mut self.next_l.keys().map(|$s:id| $...e))}} => {{input.problem.vp_next_variable(&self.next_l)}}
@@rewrite {{for $n:id in curr_l.drain(..) {}} => {{let vp_c = vp_drain(&mut curr_l); for vp_i in 0..vp_c.len() { let $n = vp_c[vp_i];}}
@@rewrite {{for (_, $n:id) in self.next_l.drain() {}} => {{let vp_t = vp_drain_values(&mut self.next_l); for vp_i in 0..vp_t.len() { let $n = vp_t[vp_i];}}
@@rewrite {{self.barriers[$...d].read().is_empty()}} => {{vp_isempty(&self.barriers, $d)}}
@@rewrite {{self.barriers[$...d].read().get($...s).map_or($...a, |$i:id| $j:id.theta)}} => {{match vp_get(&self.barriers, $d, $s, Tracked(&mut *l)) { None => $a, Some($i) => $j.theta }}}
@@rewrite {{curr_l.retain_mut(|$n:id| {$...b});}} => {{let vp_o = vp_drain(&mut curr_l); for vp_p in 0..vp_o.len() { let $n = &vp_o[vp_p]; let vp_b = {$b}; if vp_b { curr_l.push(*$n); } }}}
@@rewrite {{self.relax($...e)}} => {{self.relax($e, Ghost(al), Ghost(k))}}
@@rewrite {{for $n:id in curr_l.iter() {}} => {{for vp_k in 0..curr_l.len() { let $n = &curr_l[vp_k];}}
@@rewrite {{input.problem.for_each_in_domain($v:id, $...s, |$d:id| {$...b});}} => {{let vp_d = input.problem.vp_domain($v, $s); for vp_q in 0..vp_d.len() { let $d = vp_d[vp_q]; {$b}; }}}
@@rewrite {{self.branch_on($...e)}} => {{self.branch_on($e, Ghost(r))}}
@@rewrite {{self.best_n = self.next_l.values().copied().max_by_key(|$i:id| $...e);}} => {{let vp_t = vp_values(&self.next_l); let mut vp_b: Option<NodeId> = None; for vp_m in 0..vp_t.len() { let vp_x = vp_t[vp_m]; let vp_more = match vp_b { None => true, Some(vp_y) => { let $i = &vp_x; let vp_u = $e; let $i = &vp_y; let vp_w = $e; vp_u >= vp_w } }; if vp_more { vp_b = Some(vp_x); } } self.best_n = vp_b;}}
@@rewrite* {{self._is_exact($...e)}} => {{self._is_exact($e, Ghost(r))}}
@@rewrite* {{self.try_update_barrier($...a)}} => {{self.try_update_barrier($a, Tracked(&mut *l))}}
@@rewrite {{self.compute_local_bounds_and_theta($...e)}} => {{self.compute_local_bounds_and_theta($e, Ghost(r), Ghost(k), Ghost(al), Tracked(&mut *l))}}
@@rewrite* {{.as_ref()}} => {{.vp_ref()}}
@@spec
    requires
        obeys_key_model::<Arc<T>>(), model_ok::<T>(), small::<T>($p1.residual.value as int), 0 <= dr(sp($p1.residual)) <= nvars::<T>(), $p1.max_width >= 1,
        $p1.residual.path@.len() == dr(sp($p1.residual)), old(self).locked(), $p1.best_lb < isize::MAX,
    ensures bcomp_ok(final(self).nodes@, final(self).edges@, final(self).cutset@, final(self).best_n, final(self).root_pa@, final(self).exact, sp($p1.residual), $p1.comp_type, $p1.best_lb as int, final(l).seen, old(l).pubs, final(l).pubs),
        old(l).seen.subset_of(final(l).seen), final(self).barriers == old(self).barriers,
@@entry
    hide(dinv); hide(layer); hide(newl); hide(graph_but); hide(lay_ids); hide(nofp); hide(all_cov); hide(seen_ok); hide(alike_all); hide(cov_upto); hide(froms); hide(alive_ok); hide(vth); hide(dels); hide(delx); hide(pok); hide(cuts); hide(Barrier::cinv); hide(Barrier::kept); hide(Barrier::todo); hide(Barrier::prep); hide(Barrier::ready); hide(Barrier::below);
    let ghost r = sp(input.residual); let ghost ty = input.comp_type; let ghost lb = input.best_lb as int; let ghost lel = self.cutset_type == CutsetType::LastExactLayer;
    let ghost mut k = dr(r); let ghost mut al = ISet::<int>::empty().insert(0); let ghost mut lc = 0int; let ghost mut xs = Set::<int>::empty();
    let ghost p0 = l.pubs; let ghost see0 = l.seen; let ghost dd = ty != CompilationType::Restricted; let ghost z0 = *self;
    proof { lim_mono::<T>(0, nvars::<T>() + 1); lim_mono::<T>(0, nvars::<T>()); }
@@loop {{for vp_i in 0..input.residual.path.len() {}}
    invariant
        self.root_pa@ =~= input.residual.path@.subrange(0, vp_i as int), self.nodes@.len() == 0, self.edges@.len() == 0, self.next_l@ == Map::<Arc<T>, NodeId>::empty(), self.cutset@.len() == 0,
        self.best_n is None, !self.approximate, self.cutset_type == z0.cutset_type, self.explored == 0, self.lel_depth is None, self.barriers == z0.barriers,
@@before {{while let Some($v:id) = input.problem.vp_next_variable(&self.next_l) {}}
    proof {
        reveal(dinv); reveal(layer); reveal(newl); reveal(graph_but); reveal(lay_ids); reveal(nofp); reveal(all_cov); reveal(seen_ok); reveal(alike_all); reveal(cov_upto); reveal(froms); reveal(alive_ok); reveal(vth); reveal(dels); reveal(delx); reveal(pok); reveal(cuts); reveal(Barrier::cinv); reveal(Barrier::kept); reveal(Barrier::todo); reveal(Barrier::prep); reveal(Barrier::ready); reveal(Barrier::below);
        let ns = self.nodes@; let es = self.edges@;
        assert forall|i: int, e: int| inb(ns, es, i, e) implies false by { }
        assert(vok(ns, r, 0)); assert(nok(ns, es, r, 0));
        assert(graph(ns, es, r)); assert(nfresh(ns, r, true, 0));
        assert(sorted(ns)) by { reveal(sorted); }
        assert(dinv(ns, es, r, al, self.cutset@, true, false, lc, k));
        assert(layer(ns, al, self.next_l@, k));
        assert(lay_ids(ns, al, curr_l@, k - 1)) by { assert forall|i: int| 0 <= i < ns.len() && #[trigger] al.contains(i) && sd(ns[i]) == k - 1 implies curr_l@.contains(NodeId(i as usize)) by { } }
        assert(all_cov(ns, es, al, lb, k)) by { assert forall|u: int| #[trigger] al.contains(u) && sd(ns[u]) < k implies covered(ns, es, al, lb, u) by { } }
        erecs_same(ns, al, lb, p0, k);
        assert(newl(ns, es, k)) by { assert forall|i: int| 0 <= i < ns.len() && sd(ns[i]) == k implies (#[trigger] ns[i]).theta == isize::MAX && !fp(ns[i].flags) && !fd(ns[i].flags) && allreal(ns, es, i) by { } }
    }
@@loop {{while let Some($v:id) = input.problem.vp_next_variable(&self.next_l) {}}
    invariant
        obeys_key_model::<Arc<T>>(), model_ok::<T>(), small::<T>(r.value), 0 <= dr(r) <= nvars::<T>(), input.max_width >= 1, -big() <= r.value <= big(), self.locked(), self.barriers == z0.barriers, lb < isize::MAX, p0 == old(l).pubs, see0 == old(l).seen, z0 == *old(self),
        r == sp(input.residual), ty == input.comp_type, lb == input.best_lb, lel == (self.cutset_type == CutsetType::LastExactLayer), dd == (ty != CompilationType::Restricted), root_depth == dr(r),
        Self::cinv(*self, r, al, ty != CompilationType::Relaxed || !self.approximate, lel && ty == CompilationType::Relaxed && self.approximate, lc, k, lb, dd, l.seen, p0, l.pubs, if lel && ty == CompilationType::Relaxed && self.approximate { lc + 1 } else { k }),
        layer(self.nodes@, al, self.next_l@, k), newl(self.nodes@, self.edges@, k),
        forall|s: Arc<T>| #[trigger] self.next_l@.contains_key(s) ==> sdepth(*s) == k, dr(r) <= k <= nvars::<T>(),
        vp_k(k), depth == k, self.root_pa@ =~= r.path, self.best_n is None, self.approximate ==> k > dr(r) && ty != CompilationType::Exact,
        lay_ids(self.nodes@, al, curr_l@, k - 1), nofp(self.nodes@, curr_l@), ty != CompilationType::Relaxed ==> l.pubs == p0, see0.subset_of(l.seen),
        ty != CompilationType::Restricted || !self.approximate ==> all_cov(self.nodes@, self.edges@, al, lb, k),
        seen_ok(self.nodes@, xs, k, Seq::<NodeId>::empty(), 0), self.explored <= xs.len(),
    ensures self.next_l@.dom().len() > 0 ==> k == nvars::<T>(),
    decreases nvars::<T>() - k + 1
@@before {{self.prev_l.clear();}}
    let ghost s0 = *self; let ghost cl0 = curr_l@; let ghost nl0 = self.next_l@; let ghost all0 = ty != CompilationType::Relaxed || !self.approximate; let ghost on0 = lel && ty == CompilationType::Relaxed && self.approximate; let ghost ek0 = if on0 { lc + 1 } else { k };
@@loop {{for vp_i in 0..vp_c.len() {}}
    invariant
        self.prev_l@ =~= vp_c@.subrange(0, vp_i as int), curr_l@.len() == 0, vp_c@ == cl0,
        self.nodes == s0.nodes && self.edges == s0.edges && self.next_l == s0.next_l && self.cutset == s0.cutset && self.explored == s0.explored && self.lel_depth == s0.lel_depth && Self::mine(*self, s0),
@@before {{for vp_i in 0..vp_t.len() {}}
    let ghost ks = choose|ks: Seq<Arc<T>>| #[trigger] listing(nl0, ks, vp_t@);
@@loop {{for vp_i in 0..vp_t.len() {}}
    invariant
        self.prev_l@ =~= cl0, curr_l@ =~= vp_t@.subrange(0, vp_i as int), self.next_l@ == Map::<Arc<T>, NodeId>::empty(),
        self.nodes == s0.nodes && self.edges == s0.edges && self.cutset == s0.cutset && self.explored == s0.explored && self.lel_depth == s0.lel_depth && Self::mine(*self, s0),
@@afterloop {{for vp_i in 0..vp_t.len() {}}
    proof {
        assert(curr_l@ =~= vp_t@);
        Self::drain_step(s0, *self, r, al, all0, on0, lc, k, lb, dd, l.seen, p0, l.pubs, ek0, nl0, ks, curr_l@, ty != CompilationType::Restricted || !self.approximate);
    }
    let ghost sa = *self; let ghost cla = curr_l@;
    proof { Self::kept_start(sa.nodes@, cla); assert(alike_all(sa.nodes@, self.nodes@)); }
@@loop {{for vp_p in 0..vp_o.len() {}}
    invariant
        model_ok::<T>(), small::<T>(r.value), 0 <= dr(r), -big() <= r.value <= big(), self.locked(), lb < isize::MAX, depth == k, dr(r) < k < nvars::<T>(), ek0 <= k, on0 ==> lc < k,
        vp_o@ == cla, lay_ids(sa.nodes@, al, cla, k), alike_all(sa.nodes@, self.nodes@), see0.subset_of(l.seen), ty != CompilationType::Relaxed ==> l.pubs == p0,
        self.edges == sa.edges && self.next_l == sa.next_l && self.cutset == sa.cutset && self.explored == sa.explored && self.lel_depth == sa.lel_depth && self.prev_l == sa.prev_l && Self::mine(*self, sa),
        Self::cinv(*self, r, al, all0, on0, lc, k, lb, dd, l.seen, p0, l.pubs, ek0), layer(self.nodes@, al, nl0, k),
        Self::kept(sa.nodes@, self.nodes@, cla, vp_p as int, curr_l@), Self::todo(sa.nodes@, cla, 0), newl(sa.nodes@, sa.edges@, k), forall|i: int| 0 <= i < sa.nodes@.len() && sd(sa.nodes@[i]) != k ==> #[trigger] self.nodes@[i] == sa.nodes@[i],
        forall|u: int| 0 <= u < sa.nodes@.len() && #[trigger] covered(sa.nodes@, sa.edges@, al, lb, u) ==> covered(self.nodes@, sa.edges@, al, lb, u),
@@after {{let $n:id = &vp_o[vp_p];}}
    let ghost sp1 = *self; let ghost sp1cl = curr_l@; let ghost see1 = l.seen; let ghost x = node_id.0 as int;
    proof { reveal(dinv); reveal(layer); reveal(newl); reveal(graph_but); reveal(lay_ids); reveal(nofp); reveal(all_cov); reveal(seen_ok); reveal(alike_all); reveal(cov_upto); reveal(froms); reveal(alive_ok); reveal(vth); reveal(dels); reveal(delx); reveal(pok); reveal(cuts); reveal(Barrier::cinv); reveal(Barrier::kept); reveal(Barrier::todo); reveal(Barrier::prep); reveal(Barrier::ready); reveal(Barrier::below); assert(cla[vp_p as int] == *node_id); assert(nok(self.nodes@, self.edges@, r, x)); vok_small(self.nodes@, r, x); assert(nfresh(self.nodes@, r, all0, x)); assert(self.nodes@[x] == sa.nodes@[x]); }
@@endof {{for vp_p in 0..vp_o.len() {}}
    proof {
        if vp_b {
            Self::keep_step(sa.nodes@, self.nodes@, al, k, cla, vp_p as int, sp1cl);
            Self::pok_more(self.nodes@, see1, l.seen);
        } else {
            assert(fp(self.nodes@[x].flags)); assert(sp1.nodes@[x].theta == isize::MAX);
            assert forall|j: int| 0 <= j < sp1.nodes@.len() && j != x implies #[trigger] self.nodes@[j] == sp1.nodes@[j] by { }
            assert(by_rec(l.seen, self.nodes@[x])) by {
                assert(self.nodes@[x].theta > isize::MIN);
                assert(exists|q: Rec<T>| l.seen == #[trigger] see1.insert(q) && q.s == *self.nodes@[x].state && q.th == self.nodes@[x].theta);
                let q = choose|q: Rec<T>| l.seen == #[trigger] see1.insert(q) && q.s == *self.nodes@[x].state && q.th == self.nodes@[x].theta;
                assert(l.seen.contains(q));
            }
            assert(touched(sp1.nodes@, self.nodes@, x));
            Self::prune_step(sp1, *self, r, al, all0, on0, lc, k, lb, dd, see1, l.seen, p0, l.pubs, ek0, sa.nodes@, cla, vp_p as int, curr_l@, nl0);
        }
    }
@@before {{match input.comp_type {}}
    let ghost s1 = *self; let ghost cl1 = curr_l@; let ghost mode0 = ty != CompilationType::Restricted || !sa.approximate;
    proof {
        assert(self.nodes.len() == self.nodes@.len());
        Self::to_match(sa, s1, r, al, all0, on0, lc, k, lb, dd, l.seen, p0, l.pubs, ek0, cl0, cla, cl1, xs, mode0);
    }
@@afterloop {{match input.comp_type {}}
    proof {
        assert(self.nodes.len() == self.nodes@.len());
        if ty == CompilationType::Restricted && cl1.len() > input.max_width {
            Self::after_restrict(s1, *self, r, al, all0, lc, k, lb, l.seen, p0, ek0, cl0, cl1, xs, mode0, curr_l@);
            al = relayed(s1.nodes@, al, curr_l@, k);
        } else if ty == CompilationType::Relaxed && cl1.len() > input.max_width && depth > root_depth + 1 {
            Self::after_relax(s1, *self, r, al, lel, lc, k, lb, l.seen, p0, l.pubs, ek0, cl0, cl1, xs, curr_l@);
            al = relayed(self.nodes@, al, curr_l@, k);
            lc = if s1.approximate { lc } else { k - 1 };
        } else {
            Self::after_none(s1, r, al, all0, on0, lc, k, lb, dd, l.seen, p0, l.pubs, ek0, cl0, cl1, xs, mode0);
        }
    }
    let ghost s2 = *self; let ghost cl = curr_l@; let ghost all = ty != CompilationType::Relaxed || !self.approximate; let ghost on = lel && ty == CompilationType::Relaxed && self.approximate; let ghost mode = ty != CompilationType::Restricted || !self.approximate;
    let ghost ek = if on { lc + 1 } else { k + 1 };
    proof { reveal(Barrier::ready); assert(Self::ready(*self, r, al, all, on, lc, k, lb, dd, l.seen, p0, l.pubs, ek, cl, xs, mode)); }
@@loop {{for vp_k in 0..curr_l.len() {}}
    invariant
        obeys_key_model::<Arc<T>>(), model_ok::<T>(), small::<T>(r.value), 0 <= dr(r), input.max_width >= 1, -big() <= r.value <= big(), self.locked(), lb < isize::MAX, depth == k, lel == (self.cutset_type == CutsetType::LastExactLayer),
        r == sp(input.residual), ty == input.comp_type, lb == input.best_lb, cl == curr_l@, k < nvars::<T>(), on ==> lc < k, var == order::<T>(k), dd == (ty != CompilationType::Restricted), on == (lel && ty == CompilationType::Relaxed && self.approximate), ek == if on { lc + 1 } else { k + 1 },
        Self::mine(*self, s2), ty != CompilationType::Relaxed ==> l.pubs == p0, see0.subset_of(l.seen),
        Self::cinv(*self, r, al, all, on, lc, k + 1, lb, dd, l.seen, p0, l.pubs, ek), layer(self.nodes@, al, self.next_l@, k + 1), newl(self.nodes@, self.edges@, k + 1), lay_ids(self.nodes@, al, cl, k), nofp(self.nodes@, cl), Self::todo(self.nodes@, cl, vp_k as int),
        mode ==> cov_upto(self.nodes@, self.edges@, al, lb, k, cl, vp_k as int),
        seen_ok(self.nodes@, xs, k, cl, vp_k as int), self.explored <= xs.len(),
@@after {{let $n:id = &curr_l[vp_k];}}
    let ghost u = node_id.0 as int; let ghost na = self.nodes@; let ghost ea = self.edges@; let ghost sn0 = *self;
    proof { reveal(dinv); reveal(layer); reveal(newl); reveal(graph_but); reveal(lay_ids); reveal(nofp); reveal(all_cov); reveal(seen_ok); reveal(alike_all); reveal(cov_upto); reveal(froms); reveal(alive_ok); reveal(vth); reveal(dels); reveal(delx); reveal(pok); reveal(cuts); reveal(Barrier::cinv); reveal(Barrier::kept); reveal(Barrier::todo); reveal(Barrier::prep); reveal(Barrier::ready); reveal(Barrier::below); assert(cl[vp_k as int].0 == u); assert(nok(na, ea, r, u)); vok_small(na, r, u); lim_mono::<T>(nvars::<T>() - sd(na[u]), nvars::<T>() + 1); assert(nfresh(na, r, all, u)); }
@@after {{self.nodes[node_id.0].rub = rub;}}
    proof {
        Self::node_touch(sn0, *self, r, al, all, on, lc, k, lb, dd, l.seen, p0, l.pubs, ek, cl, vp_k as int);
        assert forall|i: int| 0 <= i < na.len() implies sd(#[trigger] self.nodes@[i]) == sd(na[i]) by { assert(alike(na[i], self.nodes@[i])); }
    }
    let ghost nb = self.nodes@; let ghost sn1 = *self; let ghost pa = l.pubs;
@@loop {{for vp_q in 0..vp_d.len() {}}
    invariant
        obeys_key_model::<Arc<T>>(), model_ok::<T>(), small::<T>(r.value), 0 <= dr(r), -big() <= r.value <= big(), self.locked(), lb < isize::MAX,
        r == sp(input.residual), lb == input.best_lb, cl == curr_l@, k < nvars::<T>(), on ==> lc < k, ek == if on { lc + 1 } else { k + 1 },
        Self::mine(*self, s2),
        Self::cinv(*self, r, al, all, on, lc, k + 1, lb, dd, l.seen, p0, l.pubs, ek), layer(self.nodes@, al, self.next_l@, k + 1), newl(self.nodes@, self.edges@, k + 1), lay_ids(self.nodes@, al, cl, k), nofp(self.nodes@, cl), Self::todo(self.nodes@, cl, vp_k + 1),
        mode ==> cov_upto(self.nodes@, self.edges@, al, lb, k, cl, vp_k as int), u == cl[vp_k as int].0, *node_id == cl[vp_k as int], vp_k < cl.len(),
        seen_ok(self.nodes@, xs, k, cl, vp_k as int), self.explored <= xs.len(),
        u < nb.len() <= self.nodes@.len(), self.nodes@[u] == nb[u],
        forall|d: Decision| vp_d@.contains(d) ==> #[trigger] indom(*nb[u].state, d),
        forall|q: int| 0 <= q < vp_q ==> went(self.nodes@, self.edges@, al, u, #[trigger] vp_d@[q]),
@@after {{let $d:id = vp_d[vp_q];}}
    let ghost sb = *self; let ghost alb = al;
    proof { reveal(dinv); reveal(layer); reveal(newl); reveal(graph_but); reveal(lay_ids); reveal(nofp); reveal(all_cov); reveal(seen_ok); reveal(alike_all); reveal(cov_upto); reveal(froms); reveal(alive_ok); reveal(vth); reveal(dels); reveal(delx); reveal(pok); reveal(cuts); reveal(Barrier::cinv); reveal(Barrier::kept); reveal(Barrier::todo); reveal(Barrier::prep); reveal(Barrier::ready); reveal(Barrier::below); assert(vp_d@.contains(decision)); assert(self.nodes.len() == self.nodes@.len()); assert(sd(self.nodes@[u]) == k); assert(nfresh(self.nodes@, r, all, u)); assert(al.contains(u)); let _ = self.nodes@[u]; }
@@endof {{for vp_q in 0..vp_d.len() {}}
    proof {
        Self::branched_inv(sb, *self, r, *node_id, decision, alb, cl, all, on, lc, lb, l.seen, p0, l.pubs, dd, ek);
        Self::branch_cinv(sb, *self, r, *node_id, decision, alb, cl, all, on, lc, k + 1, lb, dd, l.seen, p0, l.pubs, ek);
        let ns = sb.nodes@; let ms = self.nodes@;
        al = alb.insert(self.next_l@[kid(ns[u], decision)].0 as int);
        if mode {
            assert forall|x: int| #[trigger] al.contains(x) && sd(ms[x]) < k implies covered(ms, self.edges@, al, lb, x) by { assert(covered(ns, sb.edges@, alb, lb, x)); }
            assert forall|j: int| 0 <= j < vp_k implies covered(ms, self.edges@, al, lb, (#[trigger] cl[j]).0 as int) by { let x = cl[j].0 as int; assert(covered(ns, sb.edges@, alb, lb, x)); assert(sd(ns[x]) == k); }
        }
        assert forall|j: int| 0 <= j < cl.len() implies ms[(#[trigger] cl[j]).0 as int] == ns[cl[j].0 as int] by { assert(al.contains(cl[j].0 as int)); assert(sd(ms[cl[j].0 as int]) == k); }
        assert forall|i: int| 0 <= i < ns.len() implies sd(#[trigger] ms[i]) == sd(ns[i]) by { assert(*ms[i].state == *ns[i].state); }
        assert forall|q: int| 0 <= q < vp_q + 1 implies went(ms, self.edges@, al, u, #[trigger] vp_d@[q]) by { if q < vp_q { assert(went(ns, sb.edges@, alb, u, vp_d@[q])); } }
        assert(seen_ok(ms, xs, k, cl, vp_k as int)) by { assert forall|i: int| #[trigger] xs.contains(i) implies 0 <= i < ms.len() && (sd(ms[i]) < k || exists|j: int| 0 <= j < vp_k && (#[trigger] cl[j]).0 == i) by { } }
       
        assert(Self::cinv(*self, r, al, all, on, lc, k + 1, lb, dd, l.seen, p0, l.pubs, ek));
        assert(layer(self.nodes@, al, self.next_l@, k + 1)); assert(newl(self.nodes@, self.edges@, k + 1)); assert(lay_ids(self.nodes@, al, cl, k)); assert(nofp(self.nodes@, cl)); assert(Self::todo(self.nodes@, cl, vp_k + 1));
    }
@@before {{self.explored += 1;}}
    proof {
        let ns = self.nodes@;
        assert forall|d: Decision| #[trigger] indom(*ns[u].state, d) implies went(ns, self.edges@, al, u, d) by { assert(vp_d@.contains(d)); let q = choose|q: int| 0 <= q < vp_d@.len() && vp_d@[q] == d; assert(went(ns, self.edges@, al, u, vp_d@[q])); }
        went_all(ns, self.edges@, al, lb, u);
        assert(!xs.contains(u)) by { if xs.contains(u) { assert(sd(ns[u]) == k); let j = choose|j: int| 0 <= j < vp_k && (#[trigger] cl[j]).0 == u; assert(cl[j] == cl[vp_k as int]); } }
        let sn = xs.insert(u);
        seen_bound(sn, ns.len() as int);
        assert(self.nodes.len() == ns.len());
        assert(seen_ok(ns, sn, k, cl, vp_k + 1)) by {
            assert forall|i: int| #[trigger] sn.contains(i) implies 0 <= i < ns.len() && (sd(ns[i]) < k || exists|j: int| 0 <= j < vp_k + 1 && (#[trigger] cl[j]).0 == i) by {
                if i == u { assert(cl[vp_k as int].0 == i); } else { assert(xs.contains(i)); }
            }
        }
        xs = sn;
    }
@@after {{self.explored += 1;}}
    let ghost pb = l.pubs; let ghost q1 = Self::mkrec(nb[u].state, nb[u].value as int);
@@endof {{if ub > input.best_lb {}}
    proof { if l.pubs != pb { assert(erec1(self.nodes@, al, q1, ek, u)); erecs_more(self.nodes@, al, lb, p0, pb, ek, q1); } }
@@after {{self.nodes[node_id.0].theta = input.$...e;}}
    proof {
        ruled_out(self.nodes@, ea, al, lb, u, rub as int);
        assert(forall|z: int| #[trigger] rch(*nb[u].state, z) ==> self.nodes@[u].theta + z <= lb);
        Self::node_touch(sn1, *self, r, al, all, on, lc, k, lb, dd, l.seen, p0, l.pubs, ek, cl, vp_k as int);
        if mode { assert forall|x: int| #[trigger] al.contains(x) && sd(self.nodes@[x]) < k implies covered(self.nodes@, ea, al, lb, x) by { assert(alike(nb[x], self.nodes@[x])); assert(alike(na[x], nb[x])); assert(covered(na, ea, al, lb, x)); } }
    }
@@endof {{for vp_k in 0..curr_l.len() {}}
    proof {
        if l.pubs != pa && !(ub > input.best_lb) {
            let q2 = Self::mkrec(nb[u].state, self.nodes@[u].theta as int);
            assert(erec(self.nodes@, al, lb, q2, ek)); erecs_more(self.nodes@, al, lb, p0, pa, ek, q2);
        }
        assert(erecs(self.nodes@, al, lb, p0, l.pubs, ek));
        assert(pok(self.nodes@, l.seen)); assert(delx(self.nodes@, al, dd)); assert(dinv(self.nodes@, self.edges@, r, al, self.cutset@, all, on, lc, k + 1));
        assert(Self::cinv(*self, r, al, all, on, lc, k + 1, lb, dd, l.seen, p0, l.pubs, ek));
        assert(Self::todo(self.nodes@, cl, vp_k + 1));
    }
@@afterloop {{for vp_k in 0..curr_l.len() {}}
    proof {
        assert(self.nodes.len() == self.nodes@.len());
        assert(alive_ok(self.nodes@, al)) by { reveal(Barrier::cinv); reveal(dinv); }
        assert(forall|s: Arc<T>| #[trigger] self.next_l@.contains_key(s) ==> sdepth(*s) == k + 1) by { reveal(layer); }
        Self::layer_done(*self, al, lb, k, cl, xs, mode);
        k = k + 1;
    }
@@before {{for vp_m in 0..vp_t.len() {}}
    let ghost ks = choose|ks: Seq<Arc<T>>| #[trigger] listing(self.next_l@, ks, vp_t@); let ghost nl = self.next_l@;
@@loop {{for vp_m in 0..vp_t.len() {}}
    invariant
        listing(nl, ks, vp_t@), layer(self.nodes@, al, nl, k),
        vp_b is None ==> vp_m == 0, vp_b is Some ==> exists|j: int| 0 <= j < vp_m && #[trigger] vp_t@[j] == vp_b->0,
        vp_b is Some ==> (vp_b->0).0 < self.nodes@.len() && sd(self.nodes@[(vp_b->0).0 as int]) == k && forall|j: int| 0 <= j < vp_m ==> self.nodes@[(vp_b->0).0 as int].value >= self.nodes@[(#[trigger] vp_t@[j]).0 as int].value,
@@after {{let vp_x = vp_t[vp_m];}}
    proof { reveal(dinv); reveal(layer); reveal(newl); reveal(graph_but); reveal(lay_ids); reveal(nofp); reveal(all_cov); reveal(seen_ok); reveal(alike_all); reveal(cov_upto); reveal(froms); reveal(alive_ok); reveal(vth); reveal(dels); reveal(delx); reveal(pok); reveal(cuts); reveal(Barrier::cinv); reveal(Barrier::kept); reveal(Barrier::todo); reveal(Barrier::prep); reveal(Barrier::ready); reveal(Barrier::below); assert(nl.contains_key(ks[vp_m as int])); assert(vp_t@[vp_m as int] == vp_x); }
@@before {{self.best_n = vp_b;}}
    proof { reveal(dinv); reveal(layer); reveal(newl); reveal(graph_but); reveal(lay_ids); reveal(nofp); reveal(all_cov); reveal(seen_ok); reveal(alike_all); reveal(cov_upto); reveal(froms); reveal(alive_ok); reveal(vth); reveal(dels); reveal(delx); reveal(pok); reveal(cuts); reveal(Barrier::cinv); reveal(Barrier::kept); reveal(Barrier::todo); reveal(Barrier::prep); reveal(Barrier::ready); reveal(Barrier::below); }
    let ghost all = ty != CompilationType::Relaxed || !self.approximate; let ghost on = lel && ty == CompilationType::Relaxed && self.approximate; let ghost mode = ty != CompilationType::Restricted || !self.approximate;
    proof {
        let ns = self.nodes@; let es = self.edges@;
        if vp_b is None {
            assert forall|i: int| #[trigger] al.contains(i) implies sd(ns[i]) != k by { let _ = ns[i]; if sd(ns[i]) == k { assert(nl.contains_key(ns[i].state)); let q = choose|q: int| 0 <= q < ks.len() && #[trigger] ks[q] == ns[i].state; } }
        } else {
            let b = (vp_b->0).0 as int;
            assert(nl.dom().contains(ks[0])) by { assert(nl.contains_key(ks[0])); }
            assert(nl.dom().len() > 0);
            assert forall|i: int| #[trigger] al.contains(i) && sd(ns[i]) == k implies ns[b].value >= ns[i].value by { let _ = ns[i]; assert(nl.contains_key(ns[i].state)); let q = choose|q: int| 0 <= q < ks.len() && #[trigger] ks[q] == ns[i].state; assert(vp_t@[q].0 == i); }
            if all { assert(nfresh(ns, r, all, b)); fx_path(ns, es, r, b); }
        }
        assert(best_ok(ns, al, k, vp_b));
        if mode { bcompiled_best(ns, es, r, al, self.cutset@, all, on, lc, k, lb, l.seen, vp_b); }
    }
@@before {{if matches!($...e) {}}
    let ghost s3 = *self; let ghost p1 = l.pubs;
    proof {
        assert(layer(self.nodes@, al, self.next_l@, k)); assert(self.nodes.len() == self.nodes@.len());
        assert forall|i: int| 0 <= i < self.nodes@.len() implies !fm((#[trigger] self.nodes@[i]).flags) && self.nodes@[i].value_bot == isize::MIN && self.nodes@[i].depth == sd(self.nodes@[i]) && self.nodes@[i].value <= self.nodes@[i].theta by { assert(nfresh(self.nodes@, r, all, i)); }
    }
@@endof {{if matches!($...e) {}}
    proof {
        let ns = s3.nodes@; let ms = self.nodes@; let fro = !lel;
        assert(self.cutset_type == CutsetType::Frontier || lel);
        bcompiled_cut(ns, ms, self.edges@, r, al, s3.cutset@, self.cutset@, all, fro, self.approximate, lc, k, lb, l.seen, nl, p0, p1, l.pubs, self.lel_depth, self.best_n, self.root_pa@, self.exact);
        assert(alike_all(ns, ms)) by { assert forall|i: int| 0 <= i < ns.len() implies alike(ns[i], #[trigger] ms[i]) by { assert(bnode(ns[i], ms[i])); } }
        graph_alike(ns, ms, self.edges@, r, -1);
        if self.best_n is Some { let b = (self.best_n->0).0 as int; assert(alike(ns[b], ms[b])); if self.exact { Self::rpath_alike(ns, ms, self.edges@, r, b); } }
    }
@@end

    pub open spec fn drained_sub(ns: Seq<Node<T>>, cs: Seq<NodeId>, f: Seq<SubProblem<T>>, j: int) -> bool {
        exists|q: int| 0 <= q < f.len() && (#[trigger] f[q]).value == ns[cs[j].0 as int].value && rs(sp(f[q])) == *ns[cs[j].0 as int].state
    }
    pub proof fn drained_has(ns: Seq<Node<T>>, cs: Seq<NodeId>, f: Seq<SubProblem<T>>, x: int, d: int)
        requires cutx(ns, cs, x, d), forall|j: int| 0 <= j < cs.len() && fm(ns[(#[trigger] cs[j]).0 as int].flags) ==> Self::drained_sub(ns, cs, f, j)
        ensures has_sub(subs(f), x, d)
    {
        let j = choose|j: int| #[trigger] cutx1(ns, cs, x, d, j); assert(fm(ns[cs[j].0 as int].flags));
        let z = choose|z: int| #[trigger] rch(*ns[cs[j].0 as int].state, z) && ns[cs[j].0 as int].value + z >= x;
        assert(rch(*ns[cs[j].0 as int].state, z));
        let q = choose|q: int| 0 <= q < f.len() && (#[trigger] f[q]).value == ns[cs[j].0 as int].value && rs(sp(f[q])) == *ns[cs[j].0 as int].state;
        assert(subs(f)[q] == sp(f[q])); assert(promises(subs(f)[q], x)); assert(subx(subs(f), x, d, q));
    }
@@fn src/mdd/with_barrier.rs {{impl<T> Barrier<T>}} _drain_cutset
@@attr verifier::spinoff_prover
@@sig {{_drain_cutset<F>(&mut self, mut func: F) where F: FnMut(SubProblem<T>),}} => {{_drain_cutset(&mut self, func: &mut Vec<SubProblem<T>>, Ghost(k): Ghost<Ask<T>>)}}
@@rewrite {{func(SubProblem {$...b})}} => {{func.push(SubProblem {$b});}}
@@rewrite {{for $n:id in self.cutset.drain(..) {}} => {{let vp_c = vp_drain(&mut self.cutset); for vp_i in 0..vp_c.len() { let $n = vp_c[vp_i];}}
@@rewrite* {{.min(}} => {{.vp_min(}}
@@rewrite {{_best_path_partial_borrow($n:id, $...e,)}} => {{_best_path_partial_borrow($n, $e, Ghost(r))}}
@@spec
    requires old(func)@.len() == 0, bcomp_ok(old(self).nodes@, old(self).edges@, old(self).cutset@, old(self).best_n, old(self).root_pa@, old(self).exact, k.r, k.ty, k.lb, k.seen, k.p0, k.pubs), k.ty == CompilationType::Relaxed, !old(self).exact,
    ensures cut_out(k, subs(final(func)@)), final(self).barriers == old(self).barriers,
@@entry
    let ghost r = k.r; let ghost lb = k.lb; let ghost ns = self.nodes@; let ghost es = self.edges@; let ghost cs = self.cutset@; let ghost bn = self.best_n;
    proof {
        assert forall|q: Rec<T>, x: int| #[trigger] said(k, q, x) implies (bn is Some ==> cutx(ns, cs, x, sdepth(q.s) + one(q.ex)) || exc(k.seen, x, sdepth(q.s) + 1)) && (bn is None ==> exc(k.seen, x, sdepth(q.s) + 1)) by {
            let z = choose|z: int| #[trigger] rch(q.s, z) && q.th + z == x; assert(rch(q.s, z));
        }
        if bn is None {
            assert forall|y: int| #[trigger] rch(*r.state, y) && r.value + y > lb implies exc(k.seen, r.value + y, sdepth(*r.state) + 1) by { assert(!bestge(ns, bn, r.value + y)); }
            assert(subs(func@).len() == 0);
            assert(cut_out(k, subs(func@)));
        }
    }
@@loop {{for vp_i in 0..vp_c.len() {}}
    invariant
        vp_c@ == cs, self.nodes@ == ns, self.edges@ == es, self.root_pa == old(self).root_pa, self.best_n == bn, best_value == ns[(self.best_n->0).0 as int].value, r == k.r, lb == k.lb, self.barriers == old(self).barriers,
        bcut_ok(ns, es, cs, bn, self.root_pa@, r, lb, k.seen, k.p0, k.pubs), self.best_n is Some,
        forall|j: int| 0 <= j < func@.len() ==> sub_ok(r, lb, k.seen, sp(#[trigger] func@[j])),
        forall|j: int| 0 <= j < vp_i && fm(ns[(#[trigger] cs[j]).0 as int].flags) ==> Self::drained_sub(ns, cs, func@, j),
@@after {{let node = $...e;}}
    let ghost c = node_id.0 as int; let ghost f0 = func@;
    proof { assert(node_id == cs[vp_i as int]); fx_path(ns, es, r, c); path_ext(ns, es, r, c); assert(nok(ns, es, r, c)); }
@@endof {{if node.flags.is_marked() {}}
    proof {
        let q = sp(func@[f0.len() as int]); let f = bp(ns, es, sd(ns[c]) - dr(r), c);
        assert(ext_by(r, q, f));
        assert forall|y: int| #[trigger] rch(rs(q), y) && q.value + y > lb implies q.value + y <= q.ub || exc(k.seen, q.value + y, sdepth(*q.state) + 1) by {
            assert(rch(*ns[cs[vp_i as int].0 as int].state, y));
            if cut_bound(ns[c], y, ns[(bn->0).0 as int].value as int) { }
        }
        assert(sub_ok(r, lb, k.seen, q));
        assert forall|j: int| 0 <= j < func@.len() implies sub_ok(r, lb, k.seen, sp(#[trigger] func@[j])) by { if j < f0.len() { assert(func@[j] == f0[j]); } }
        assert forall|j: int| 0 <= j < vp_i + 1 && fm(ns[(#[trigger] cs[j]).0 as int].flags) implies Self::drained_sub(ns, cs, func@, j) by {
            if j < vp_i { assert(Self::drained_sub(ns, cs, f0, j)); let q = choose|q: int| 0 <= q < f0.len() && (#[trigger] f0[q]).value == ns[cs[j].0 as int].value && rs(sp(f0[q])) == *ns[cs[j].0 as int].state; assert(func@[q] == f0[q]); }
            else { assert(func@[f0.len() as int].value == ns[c].value); }
        }
    }
@@afterloop {{for vp_i in 0..vp_c.len() {}}
    proof {
        assert forall|j: int| 0 <= j < subs(func@).len() implies sub_ok(k.r, k.lb, k.seen, #[trigger] subs(func@)[j]) by { assert(subs(func@)[j] == sp(func@[j])); }
        assert forall|y: int| #[trigger] rch(*k.r.state, y) && k.r.value + y > k.lb implies has_sub(subs(func@), r.value + y, sdepth(*r.state) + 1) || exc(k.seen, r.value + y, sdepth(*r.state) + 1) by {
            if cutx(ns, cs, r.value + y, dr(r) + 1) { Self::drained_has(ns, cs, func@, r.value + y, dr(r) + 1); }
        }
        assert forall|q: Rec<T>, x: int| #[trigger] said(k, q, x) implies has_sub(subs(func@), x, sdepth(q.s) + (if q.ex { 1int } else { 0int })) || exc(k.seen, x, sdepth(q.s) + 1) by {
            assert(cutx(ns, cs, x, sdepth(q.s) + one(q.ex)) || exc(k.seen, x, sdepth(q.s) + 1));
            if cutx(ns, cs, x, sdepth(q.s) + one(q.ex)) { Self::drained_has(ns, cs, func@, x, sdepth(q.s) + one(q.ex)); }
        }
        assert(cut_out(k, subs(func@)));
    }
@@end
}
impl<T> DecisionDiagram for Barrier<T>
where
    T: Eq + PartialEq + Hash + Clone,
{
    type State = T;
    open spec fn holds(self, k: Ask<T>) -> bool {
        bcomp_ok(self.nodes@, self.edges@, self.cutset@, self.best_n, self.root_pa@, self.exact, k.r, k.ty, k.lb, k.seen, k.p0, k.pubs) && dr(k.r) >= 0
    }
    open spec fn wf(self) -> bool { self.best_n is Some ==> (self.best_n->0).0 < self.nodes@.len() }
    open spec fn tables(self) -> bool { self.locked() }
    open spec fn bv(self) -> Option<int> { match self.best_n { Some(b) => Some(self.nodes@[b.0 as int].value as int), None => None } }
    open spec fn ex(self) -> bool { self.exact }
@@fn src/mdd/with_barrier.rs {{impl<T> DecisionDiagram for Barrier<T>}} compile
@@sig {{input: &CompilationInput<P, R, O>}} => {{input: &CompilationInput<P, R, O>, Tracked(l): Tracked<&mut Log<T>>}}
@@rewrite {{self._compile(input)}} => {{let ghost p0 = l.pubs; self._compile(input, Tracked(&mut *l));
    proof {
        let k = Ask { r: sp(input.residual), ty: input.comp_type, lb: input.best_lb as int, seen: l.seen, p0, pubs: l.pubs };
        assert forall|q: Rec<T>, x: int| #[trigger] said(k, q, x) && (self.ex() || self.bv() is None) implies atleast(self.bv(), x) || exc(k.seen, x, sdepth(q.s) + 1) by {
            let z = choose|z: int| #[trigger] rch(q.s, z) && q.th + z == x; assert(rch(q.s, z));
        }
    }}}
@@end
@@fn src/mdd/with_barrier.rs {{impl<T> DecisionDiagram for Barrier<T>}} is_exact
@@end
@@fn src/mdd/with_barrier.rs {{impl<T> DecisionDiagram for Barrier<T>}} best_value
@@end
@@fn src/mdd/with_barrier.rs {{impl<T> DecisionDiagram for Barrier<T>}} best_solution
@@sig {{(&self)}} => {{(&self, Ghost(k): Ghost<Ask<Self::State>>)}}
@@rewrite* {{self._best_solution()}} => {{let vp_r = self._best_solution(Ghost(k.r)); vp_r}}
@@after {{let vp_r = self._best_solution(Ghost(k.r));}}
    proof {
        if self.best_n is Some && (self.exact || k.ty != CompilationType::Relaxed) {
            let b = (self.best_n->0).0 as int; let f = bp(self.nodes@, self.edges@, sd(self.nodes@[b]) - dr(k.r), b);
            path_ext(self.nodes@, self.edges@, k.r, b);
            assert(sol_by(k.r, (vp_r->0)@, self.bv()->0, f));
        }
    }
@@end
@@fn src/mdd/with_barrier.rs {{impl<T> DecisionDiagram for Barrier<T>}} drain_cutset
@@sig {{drain_cutset<F>(&mut self, func: F) where F: FnMut(SubProblem<T>),}} => {{drain_cutset(&mut self, func: &mut Vec<SubProblem<T>>, Ghost(k): Ghost<Ask<T>>)}}
@@rewrite* {{self._drain_cutset(func)}} => {{self._drain_cutset(func, Ghost(k))}}
@@end
}
}
fn main() {}
