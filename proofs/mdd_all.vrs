#![feature(const_destruct)]
#![feature(allocator_api)]
#![allow(warnings)]
@@include common.inc
use std::collections::HashMap;
use std::collections::hash_map::Entry;
use std::hash::Hash;
use vstd::std_specs::hash::*;
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::map::group_map_lemmas, vstd::set::group_set_lemmas};
pub type FxHashMap<K, V> = HashMap<K, V>;
@@include subproblem.inc
@@include flags.inc
@@include model.inc
@@include model_ok.inc
@@item src/mdd/with_all.rs struct NodeId
@@derive Clone, Copy
@@end
@@item src/mdd/with_all.rs struct EdgeId
@@derive Clone, Copy
@@end
@@item src/mdd/with_all.rs struct Node
@@end
@@item src/mdd/with_all.rs struct Edge
@@derive Clone, Copy
@@end
@@include mdd_traits.inc
@@include graph.inc
@@include paths.inc
@@include locb.inc
@@include dd_contract.inc
@@include sem.inc
@@include compile.inc
@@item src/mdd/with_all.rs struct All
@@end

impl<T> All<T>
where
    T: Eq + PartialEq + Hash + Clone,
{
    /// arcs can leave node u: every node sits at most one layer deeper
    pub open spec fn below(ns: Seq<Node<T>>, k: int) -> bool { forall|i: int| 0 <= i < ns.len() ==> sd(#[trigger] ns[i]) <= k }
    /// a and b differ at most in nodes and edges
    pub open spec fn rest(a: Self, b: Self) -> bool {
        &&& a.root_pa == b.root_pa && a.prev_l == b.prev_l && a.next_l == b.next_l && a.cutset == b.cutset && a.best_n == b.best_n
        &&& a.exact == b.exact && a.approximate == b.approximate && a.cutset_type == b.cutset_type && a.explored == b.explored
    }
    /// a and b differ at most in nodes, edges and cutset
    pub open spec fn rest_cut(a: Self, b: Self) -> bool {
        &&& a.root_pa == b.root_pa && a.prev_l == b.prev_l && a.next_l == b.next_l && a.best_n == b.best_n && a.edges == b.edges
        &&& a.exact == b.exact && a.approximate == b.approximate && a.cutset_type == b.cutset_type && a.explored == b.explored
    }
    pub open spec fn branched(a: Self, b: Self, r: SP<T>, from: NodeId, d: Decision) -> bool {
        let ns = a.nodes@; let ms = b.nodes@; let es = a.edges@; let fs = b.edges@;
        let f = from.0 as int; let t = Arc::new(trans(*ns[f].state, d)); let w = b.next_l@[t].0 as int; let k = sd(ns[f]) + 1;
        &&& graph(ms, fs, r) && grows(ns, es, ms, fs) && Self::below(ms, k) && Self::lay(ms, b.next_l@, k)
        &&& forall|i: int| 0 <= i < ns.len() && i != w ==> #[trigger] ms[i] == ns[i]
        &&& w != f && w > 0 && w < ms.len() && sd(ms[w]) == k && *ms[w].state == trans(*ns[f].state, d) && inb(ms, fs, w, es.len() as int) && fs.len() == es.len() + 1 && fs[es.len() as int].from == from && fs[es.len() as int].cost == tcost(*ns[f].state, d)
        &&& a.next_l@.contains_key(t) ==> b.next_l@ =~= a.next_l@ && ms.len() == ns.len() && w < ns.len() && ms[w].rub == ns[w].rub && ms[w].value_bot == ns[w].value_bot
            && feq(ms[w].flags, ms[w].flags, fx(ns[w].flags) && fx(ns[f].flags), fr(ns[w].flags), fm(ns[w].flags), fc(ns[w].flags), fd(ns[w].flags), fp(ns[w].flags))
        &&& !a.next_l@.contains_key(t) ==> b.next_l@ =~= a.next_l@.insert(t, NodeId(ns.len() as usize)) && w == ns.len() && ms.len() == ns.len() + 1 && ms[w].rub == isize::MAX && ms[w].value_bot == isize::MIN && ms[w].flags == ns[f].flags
        &&& a.root_pa == b.root_pa && a.prev_l == b.prev_l && a.cutset == b.cutset && a.best_n == b.best_n
        &&& a.exact == b.exact && a.approximate == b.approximate && a.cutset_type == b.cutset_type && a.explored == b.explored
    }
    pub open spec fn relaxed(a: Self, b: Self, r: SP<T>, al: ISet<int>, k: int, v: Seq<NodeId>) -> bool {
        let ns = a.nodes@; let es = a.edges@; let ms = b.nodes@; let fs = b.edges@;
        let bl = relayed(ms, al, v, k); let cut = a.cutset_type == CutsetType::LastExactLayer && !a.approximate;
        &&& graph(ms, fs, r) && grows(ns, es, ms, fs) && Self::below(ms, k) && alive_ok(ms, bl) && froms(ms, fs, bl, k) && lay_ids(ms, bl, v, k) && v.len() > 0
        &&& forall|i: int| 0 <= i < ns.len() ==> still(ns[i], #[trigger] ms[i]) && (sd(ns[i]) != k ==> still_graph(ns[i], ms[i]))
                && relax_flags(ns[i].flags, ms[i].flags, sd(ns[i]) != k, cut && (exists|j: int| 0 <= j < a.prev_l@.len() && (#[trigger] a.prev_l@[j]).0 == i))
        &&& forall|i: int| ns.len() <= i < ms.len() ==> sd(#[trigger] ms[i]) == k && ms[i].rub == isize::MAX && ms[i].value_bot == isize::MIN && feq(ms[i].flags, ms[i].flags, false, true, false, false, false, false)
        &&& forall|lb: int, u: int| al.contains(u) && sd(ns[u]) < k && #[trigger] covered(ns, es, al, lb, u) ==> covered(ms, fs, bl, lb, u)
        &&& b.approximate && b.cutset@ =~= if cut { a.cutset@ + a.prev_l@ } else { a.cutset@ }
        &&& a.root_pa == b.root_pa && a.prev_l == b.prev_l && a.next_l == b.next_l && a.best_n == b.best_n
        &&& a.exact == b.exact && a.cutset_type == b.cutset_type && a.explored == b.explored
    }
    /// the next layer: each key is the state of its node, at depth k
    pub open spec fn lay(ns: Seq<Node<T>>, nl: Map<Arc<T>, NodeId>, k: int) -> bool {
        forall|s: Arc<T>| #[trigger] nl.contains_key(s) ==> nl[s].0 < ns.len() && *ns[nl[s].0 as int].state == *s && sdepth(*s) == k
    }

    pub proof fn relaxed_inv(a: Self, b: Self, r: SP<T>, al: ISet<int>, k: int, v: Seq<NodeId>, lel: bool, lc: int, lb: int)
        requires
            Self::relaxed(a, b, r, al, k, v), dinv(a.nodes@, a.edges@, r, al, a.cutset@, !a.approximate, lel && a.approximate, lc, k), lel == (a.cutset_type == CutsetType::LastExactLayer),
            lay_ids(a.nodes@, al, a.prev_l@, k - 1), dr(r) + 1 < k < nvars::<T>(), all_cov(a.nodes@, a.edges@, al, lb, k), model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, -big() <= r.value <= big(),
            b.nodes@.len() <= usize::MAX,
        ensures ({ let ms = b.nodes@; let bl = relayed(ms, al, v, k);
            dinv(ms, b.edges@, r, bl, b.cutset@, false, lel, if a.approximate { lc } else { k - 1 }, k) && all_cov(ms, b.edges@, bl, lb, k) && lay_ids(ms, bl, v, k) })
    {
        let ns = a.nodes@; let es = a.edges@; let ms = b.nodes@; let fs = b.edges@; let bl = relayed(ms, al, v, k); let cut = lel && !a.approximate; let ld = if a.approximate { lc } else { k - 1 };
        assert forall|i: int| 0 <= i < ms.len() implies #[trigger] nfresh(ms, r, false, i) && sd(ms[i]) <= k by {
            let _ = ms[i];
            if i < ns.len() { assert(still(ns[i], ms[i])); assert(nfresh(ns, r, !a.approximate, i)); }
            else { rub_max(r, ms[i]); }
        }
        assert forall|u: int| #[trigger] bl.contains(u) && sd(ms[u]) < k implies covered(ms, fs, bl, lb, u) by {
            if v.contains(NodeId(u as usize)) { let j = choose|j: int| 0 <= j < v.len() && v[j] == NodeId(u as usize); assert(v[j].0 == u); }
            assert(al.contains(u)); assert(still(ns[u], ms[u])); assert(covered(ns, es, al, lb, u));
        }
        if lel {
            assert forall|j: int| 0 <= j < b.cutset@.len() implies (#[trigger] b.cutset@[j]).0 < ms.len() && sd(ms[b.cutset@[j].0 as int]) == ld && fx(ms[b.cutset@[j].0 as int].flags) && bl.contains(b.cutset@[j].0 as int) by {
                let i = b.cutset@[j].0 as int;
                if cut { assert(b.cutset@[j] == a.prev_l@[j]); assert(nfresh(ns, r, true, i)); }
                assert(still(ns[i], ms[i]));
            }
            assert forall|i: int| #[trigger] bl.contains(i) && sd(ms[i]) == ld implies b.cutset@.contains(NodeId(i as usize)) by {
                if v.contains(NodeId(i as usize)) { let j = choose|j: int| 0 <= j < v.len() && v[j] == NodeId(i as usize); assert(v[j].0 == i); }
                assert(al.contains(i)); assert(still(ns[i], ms[i]));
                if cut { assert(a.prev_l@.contains(NodeId(i as usize))); assert(b.cutset@ =~= a.prev_l@); }
            }
            assert forall|i: int| 0 <= i < ms.len() && fc((#[trigger] ms[i]).flags) implies sd(ms[i]) == ld by {
                if i < ns.len() { assert(still(ns[i], ms[i])); assert(relax_flags(ns[i].flags, ms[i].flags, sd(ns[i]) != k, cut && (exists|j: int| 0 <= j < a.prev_l@.len() && (#[trigger] a.prev_l@[j]).0 == i))); let _ = ns[i]; }
            }
        } else {
            assert forall|i: int| 0 <= i < ms.len() implies !fc((#[trigger] ms[i]).flags) by { if i < ns.len() { assert(still(ns[i], ms[i])); let _ = ns[i]; } }
        }
        assert forall|i: int| 0 <= i < ms.len() implies sd(#[trigger] ms[i]) <= k by { assert(nfresh(ms, r, false, i)); }
    }
    pub proof fn branched_inv(a: Self, b: Self, r: SP<T>, from: NodeId, d: Decision, al: ISet<int>, cl: Seq<NodeId>, all: bool, on: bool, lc: int, lb: int)
        requires
            Self::branched(a, b, r, from, d), from.0 < a.nodes@.len(), ({ let k = sd(a.nodes@[from.0 as int]) + 1;
                dinv(a.nodes@, a.edges@, r, al, a.cutset@, all, on, lc, k) && layer(a.nodes@, al, a.next_l@, k) && lay_ids(a.nodes@, al, cl, k - 1) }),
            on ==> lc < sd(a.nodes@[from.0 as int]), al.contains(from.0 as int), model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, -big() <= r.value <= big(), a.nodes@.len() <= usize::MAX,
        ensures ({ let k = sd(a.nodes@[from.0 as int]) + 1; let w = b.next_l@[kid(a.nodes@[from.0 as int], d)].0 as int; let bl = al.insert(w);
            &&& dinv(b.nodes@, b.edges@, r, bl, b.cutset@, all, on, lc, k) && layer(b.nodes@, bl, b.next_l@, k) && lay_ids(b.nodes@, bl, cl, k - 1)
            &&& went(b.nodes@, b.edges@, bl, from.0 as int, d)
            &&& forall|u: int, x: Decision| 0 <= u < a.nodes@.len() && #[trigger] went(a.nodes@, a.edges@, al, u, x) ==> went(b.nodes@, b.edges@, bl, u, x)
            &&& forall|u: int| 0 <= u < a.nodes@.len() && sd(a.nodes@[u]) < k && #[trigger] covered(a.nodes@, a.edges@, al, lb, u) ==> covered(b.nodes@, b.edges@, bl, lb, u)
            &&& forall|u: int| #[trigger] bl.contains(u) && sd(b.nodes@[u]) < k ==> al.contains(u) && sd(a.nodes@[u]) < k && b.nodes@[u] == a.nodes@[u]
        })
    {
        let ns = a.nodes@; let es = a.edges@; let ms = b.nodes@; let fs = b.edges@; let f = from.0 as int; let t = kid(ns[f], d);
        let w = b.next_l@[t].0 as int; let bl = al.insert(w); let k = sd(ns[f]) + 1; let nl = a.next_l@; let ml = b.next_l@;
        assert forall|i: int| 0 <= i < ns.len() implies sd(#[trigger] ms[i]) == sd(ns[i]) by { }
        assert(nok(ms, fs, r, w)); assert(ms[f] == ns[f]);
        assert forall|i: int| 0 <= i < ms.len() implies #[trigger] nfresh(ms, r, all, i) by {
            assert(nfresh(ns, r, all, f));
            if i < ns.len() { assert(nfresh(ns, r, all, i)); if i != w { assert(ms[i] == ns[i]); } }
            else { rub_max(r, ms[i]); }
        }
        assert forall|e: int| 0 <= e < fs.len() implies bl.contains((#[trigger] fs[e]).from.0 as int) && fs[e].from.0 < ms.len() && sd(ms[fs[e].from.0 as int]) < k by {
            if e < es.len() { assert(fs[e] == es[e]); let g = es[e].from.0 as int; assert(sd(ns[g]) < k); assert(sd(ms[g]) == sd(ns[g])); }
        }
        let cs = a.cutset@;
        if on {
            assert forall|j: int| 0 <= j < cs.len() implies (#[trigger] cs[j]).0 < ms.len() && sd(ms[cs[j].0 as int]) == lc && fx(ms[cs[j].0 as int].flags) by { let g = cs[j].0 as int; assert(g != w); assert(ms[g] == ns[g]); }
            assert forall|i: int| #[trigger] bl.contains(i) && sd(ms[i]) == lc implies cs.contains(NodeId(i as usize)) by { assert(i != w); assert(al.contains(i)); assert(ms[i] == ns[i]); }
        }
        assert forall|i: int| 0 <= i < ms.len() && fc((#[trigger] ms[i]).flags) implies on && sd(ms[i]) == lc by { if i < ns.len() && i != w { assert(ms[i] == ns[i]); } else if i < ns.len() { assert(fc(ns[i].flags)); } else { assert(fc(ns[f].flags)); } }
        assert forall|s: Arc<T>| #[trigger] ml.contains_key(s) implies ml[s].0 < ms.len() && *ms[ml[s].0 as int].state == *s && sdepth(*s) == k && bl.contains(ml[s].0 as int) by {
            if nl.contains_key(s) { assert(ml[s] == nl[s]); let g = nl[s].0 as int; if g != w { assert(ms[g] == ns[g]); } }
        }
        assert forall|i: int| 0 <= i < ms.len() && sd(#[trigger] ms[i]) == k implies ml.contains_key(ms[i].state) && ml[ms[i].state].0 == i by {
            if i < ns.len() { let _ = ns[i]; assert(sd(ns[i]) == k); assert(nl.contains_key(ns[i].state)); assert(ms[i].state == ns[i].state || i == w); if i != w { assert(ms[i] == ns[i]); } else { assert(*ms[i].state == *t); assert(ms[i].state == t); } }
            else { assert(*ms[i].state == *t); assert(ms[i].state == t); }
        }
        assert forall|j: int| 0 <= j < cl.len() implies (#[trigger] cl[j]).0 < ms.len() && bl.contains(cl[j].0 as int) && sd(ms[cl[j].0 as int]) == k - 1 by { let g = cl[j].0 as int; assert(sd(ms[g]) == sd(ns[g])); }
        assert forall|i: int| 0 <= i < ms.len() && #[trigger] bl.contains(i) && sd(ms[i]) == k - 1 implies cl.contains(NodeId(i as usize)) by { assert(i != w); assert(al.contains(i)); assert(ms[i] == ns[i]); }
        assert(bl.contains(w)); assert(fs[es.len() as int].from == from);
        assert(arc(ms, fs, bl, f, w, es.len() as int)); assert(went(ms, fs, bl, f, d));
        assert forall|u: int, x: Decision| 0 <= u < ns.len() && #[trigger] went(ns, es, al, u, x) implies went(ms, fs, bl, u, x) by { went_grows(ns, es, ms, fs, al, bl, u, x); }
        assert forall|u: int| 0 <= u < ns.len() && sd(ns[u]) < k && #[trigger] covered(ns, es, al, lb, u) implies covered(ms, fs, bl, lb, u) by { assert(u != w); assert(ms[u] == ns[u]); covered_grows(ns, es, ms, fs, al, bl, lb, u); }
        assert forall|u: int| #[trigger] bl.contains(u) && sd(ms[u]) < k implies al.contains(u) && sd(ns[u]) < k && ms[u] == ns[u] by { assert(u != w); assert(al.contains(u)); assert(ms[u] == ns[u]); }
    }

@@fn src/mdd/with_all.rs {{impl<T> All<T>}} branch_on
@@attr verifier::spinoff_prover
@@sig {{problem: &P,}} => {{problem: &P, Ghost(r): Ghost<SP<T>>,}}
@@rewrite* {{.as_ref()}} => {{.vp_ref()}}
@@rewrite? {{exact & $...b ;}} => {{exact && ($b);}}
@@spec
    requires
        obeys_key_model::<Arc<T>>(), model_ok::<T>(), small::<T>(r.value), dr(r) >= 0,
        graph(old(self).nodes@, old(self).edges@, r), $p1.0 < old(self).nodes@.len(),
        indom(*old(self).nodes@[$p1.0 as int].state, $p2),
        Self::below(old(self).nodes@, sd(old(self).nodes@[$p1.0 as int]) + 1),
        Self::lay(old(self).nodes@, old(self).next_l@, sd(old(self).nodes@[$p1.0 as int]) + 1),
    ensures Self::branched(*old(self), *final(self), r, $p1, $p2),
@@entry
    proof { assert(nok(self.nodes@, self.edges@, r, $p1.0 as int)); vok_small(self.nodes@, r, $p1.0 as int); }
    let ghost ns0 = self.nodes@; let ghost es0 = self.edges@; let ghost nl0 = self.next_l@;
@@endof {{Entry::Vacant($e) => {}}
    proof {
        let w = ns0.len() as int;
        branch_step(ns0, es0, r, self.nodes@, w, self.edges@[es0.len() as int]);
        assert(self.edges@ =~= es0.push(self.edges@[es0.len() as int]));
    }
@@endof {{Entry::Occupied($e) => {}}
    proof {
        let w = nl0[next_state].0 as int;
        assert(nok(ns0, es0, r, 0));
        branch_step(ns0, es0, r, self.nodes@, w, self.edges@[es0.len() as int]);
        assert(self.edges@ =~= es0.push(self.edges@[es0.len() as int]));
    }
@@end

@@fn src/mdd/with_all.rs {{impl<T> All<T>}} restrict
@@rewrite {{curr_l.sort_unstable_by($...c);}} => {{vp_sort(curr_l);}}
@@spec
    ensures
        final(self).approximate, final($p2)@.no_duplicates() || !old($p2)@.no_duplicates(),
        forall|x: NodeId| #[trigger] final($p2)@.contains(x) ==> old($p2)@.contains(x),
        final(self).nodes == old(self).nodes && final(self).edges == old(self).edges && final(self).root_pa == old(self).root_pa && final(self).prev_l == old(self).prev_l && final(self).next_l == old(self).next_l,
        final(self).cutset == old(self).cutset && final(self).best_n == old(self).best_n && final(self).exact == old(self).exact && final(self).cutset_type == old(self).cutset_type && final(self).explored == old(self).explored,
@@end

@@fn src/mdd/with_all.rs {{impl<T> All<T>}} relax
@@attr verifier::spinoff_prover
@@sig {{curr_l: &mut Vec<NodeId>}} => {{curr_l: &mut Vec<NodeId>, Ghost(al): Ghost<ISet<int>>, Ghost(k): Ghost<int>}}
@@rewrite* {{.as_ref()}} => {{.vp_ref()}}
@@rewrite {{curr_l.sort_unstable_by($...c);}} => {{vp_sort(curr_l);}}
@@rewrite {{for $id:id in self.prev_l.iter() {}} => {{for vp_i in 0..self.prev_l.len() { let $id = &self.prev_l[vp_i];}}
@@rewrite {{let ($ka:id, $mg:id) = curr_l.split_at_mut($...e);}} => {{let vp_at = $e; let $ka = vp_slice(curr_l, 0, vp_at); let $mg = vp_slice(curr_l, vp_at, curr_l.len());}}
@@rewrite {{let $m:id = Arc::new(input.relaxation.merge(&mut $v:id.iter().map(|$x:id| $...e)));}} => {{let mut vp_states: Vec<&T> = Vec::new(); for vp_i in 0..$v.len() { let $x = &$v[vp_i]; vp_states.push($e); } let $m = Arc::new(input.relaxation.vp_merge(&vp_states));}}
@@rewrite {{let $rc:id = $v:id.iter().find(|$x:id| $...c).map(|$x2:id| *$x3:id);}} => {{let mut $rc: Option<NodeId> = None; for vp_f in 0..$v.len() { let $x = &$v[vp_f]; if $rc.is_none() && ($c) { $rc = Some(*$x); } }}}
@@rewrite {{.eq(&merged)}} => {{.vp_same(&merged)}}
@@rewrite {{$rc:id.unwrap_or_else(|| {$...b})}} => {{match $rc { Some(vp_x) => vp_x, None => {$b} }}}
@@rewrite {{for $d:id in merge {}} => {{for vp_j in 0..merge.len() { let $d = &merge[vp_j];}}
@@spec
    requires
        model_ok::<T>(), small::<T>(input.residual.value as int), dr(sp(input.residual)) >= 0, dr(sp(input.residual)) < k <= nvars::<T>(),
        graph(old(self).nodes@, old(self).edges@, sp(input.residual)),
        Self::below(old(self).nodes@, k), alive_ok(old(self).nodes@, al), froms(old(self).nodes@, old(self).edges@, al, k),
        lay_ids(old(self).nodes@, al, old($p2)@, k),
        1 <= input.max_width < old($p2)@.len(),
        forall|j: int| 0 <= j < old(self).prev_l@.len() ==> (#[trigger] old(self).prev_l@[j]).0 < old(self).nodes@.len() && sd(old(self).nodes@[old(self).prev_l@[j].0 as int]) < k,
    ensures Self::relaxed(*old(self), *final(self), sp(input.residual), al, k, final($p2)@),
@@entry
    let ghost r = sp(input.residual);
    let ghost ns0 = self.nodes@; let ghost es0 = self.edges@; let ghost cl0 = curr_l@; let ghost cut = self.cutset_type == CutsetType::LastExactLayer && !self.approximate;
    let ghost prev0 = self.prev_l@;
@@loop {{for vp_i in 0..self.prev_l.len() {}}
    invariant
        self.prev_l@ == prev0, self.edges@ == es0, alike_all(ns0, self.nodes@),
        forall|j: int| 0 <= j < prev0.len() ==> (#[trigger] prev0[j]).0 < ns0.len(),
        forall|i: int| 0 <= i < ns0.len() ==> still(ns0[i], #[trigger] self.nodes@[i]) && relax_flags(ns0[i].flags, self.nodes@[i].flags, true, exists|j: int| 0 <= j < vp_i && (#[trigger] prev0[j]).0 == i),
        self.cutset@ == old(self).cutset@ + prev0.subrange(0, vp_i as int),
        self.root_pa == old(self).root_pa, self.next_l == old(self).next_l, self.best_n == old(self).best_n, self.prev_l == old(self).prev_l,
        self.exact == old(self).exact, self.cutset_type == old(self).cutset_type, self.explored == old(self).explored, self.approximate == old(self).approximate,
@@after {{vp_sort(curr_l);}}
    let ghost cl1 = curr_l@; let ghost nsa = self.nodes@;
    proof {
        graph_alike(ns0, nsa, es0, r, -1);
        assert forall|j: int| 0 <= j < cl1.len() implies cl0.contains(#[trigger] cl1[j]) && cl1[j].0 < nsa.len() && al.contains(cl1[j].0 as int) && sd(nsa[cl1[j].0 as int]) == k by {
            assert(cl1.contains(cl1[j])); assert(cl0.contains(cl1[j])); assert(still(ns0[cl1[j].0 as int], nsa[cl1[j].0 as int]));
        }
        assert(forall|i: int| 0 <= i < ns0.len() ==> sd(#[trigger] nsa[i]) == sd(ns0[i])) by { assert(forall|i: int| 0 <= i < ns0.len() ==> still(ns0[i], #[trigger] nsa[i])); }
    }
@@loop {{for vp_i in 0..merge.len() {}}
    invariant
        merge@ == cl1.subrange(input.max_width - 1, cl1.len() as int), 1 <= input.max_width < cl1.len(), self.nodes@ == nsa,
        forall|j: int| 0 <= j < cl1.len() ==> (#[trigger] cl1[j]).0 < nsa.len(),
        vp_states@.len() == vp_i, forall|j: int| 0 <= j < cl1.len() ==> sd(nsa[(#[trigger] cl1[j]).0 as int]) == k,
        forall|j: int| 0 <= j < vp_i ==> sdepth(*(#[trigger] vp_states@[j])) == k, forall|j: int| 0 <= j < vp_i ==> *(#[trigger] vp_states@[j]) == *nsa[merge@[j].0 as int].state,
@@loop {{for vp_f in 0..keep.len() {}}
    invariant
        keep@ == cl1.subrange(0, input.max_width - 1), 1 <= input.max_width < cl1.len(), self.nodes@ == nsa,
        forall|j: int| 0 <= j < cl1.len() ==> (#[trigger] cl1[j]).0 < nsa.len(),
        recycled is Some ==> keep@.contains(recycled->0) && *nsa[(recycled->0).0 as int].state == *merged,
@@after {{self.nodes[merged_id.0].flags.set_relaxed(true);}}
    let ghost ns1 = self.nodes@; let ghost m = merged_id.0 as int; let ghost s1 = *self;
    proof {
        assert(merge@[0] == cl1[input.max_width - 1]);
        assert forall|j: int| 0 <= j < merge@.len() implies (#[trigger] merge@[j]).0 < nsa.len() && sd(nsa[merge@[j].0 as int]) == k && merge@[j].0 != m && rel(*nsa[merge@[j].0 as int].state, *merged) by {
            assert(merge@[j] == cl1[input.max_width - 1 + j]);
            assert(*vp_states@[j] == *nsa[merge@[j].0 as int].state);
            if recycled is Some { let q = choose|q: int| 0 <= q < keep@.len() && keep@[q] == recycled->0; assert(keep@[q] == cl1[q]); }
        }
        assert(rel(*nsa[merge@[0].0 as int].state, *merged));
        if recycled is Some { let q = choose|q: int| 0 <= q < keep@.len() && keep@[q] == recycled->0; assert(keep@[q] == cl1[q]); assert(sd(nsa[m]) == k); }
        assert(nok(ns0, es0, r, 0)); assert(still(ns0[0], nsa[0]));
        merged_start(nsa, es0, ns1, r, al, k, m);
        assert forall|j: int| 0 <= j < merge@.len() implies (#[trigger] merge@[j]).0 < ns1.len() && ns1[merge@[j].0 as int] == nsa[merge@[j].0 as int] by { }
        grows_trans(ns0, es0, nsa, es0, ns1, es0);
    }
@@loop {{for vp_j in 0..merge.len() {}}
    invariant
        model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, dr(r) < k <= nvars::<T>(), r == sp(input.residual),
        m == merged_id.0, 0 < m < ns1.len(), sd(ns1[m]) == k, *ns1[m].state == *merged, fr(ns1[m].flags), !fx(ns1[m].flags),
        forall|j: int| 0 <= j < merge@.len() ==> (#[trigger] merge@[j]).0 < ns1.len() && sd(ns1[merge@[j].0 as int]) == k && merge@[j].0 != m && rel(*ns1[merge@[j].0 as int].state, *merged),
        graph_but(ns1, es0, r, m), froms(ns1, es0, al, k), Self::below(ns1, k),
        self.nodes@.len() == ns1.len(), forall|i: int| 0 <= i < ns1.len() && i != m ==> #[trigger] self.nodes@[i] == ns1[i],
        still(ns1[m], self.nodes@[m]), self.nodes@[m].flags == ns1[m].flags,
        graph_but(self.nodes@, self.edges@, r, m), grows(ns1, es0, self.nodes@, self.edges@), froms(self.nodes@, self.edges@, al, k), Self::below(self.nodes@, k),
        nok(self.nodes@, self.edges@, r, m) || (vp_j == 0 && self.nodes@[m] == ns1[m] && ns1[m].value == isize::MIN && ns1[m].best is None),
        forall|j: int, e: int| 0 <= j < vp_j && #[trigger] inb(ns1, es0, merge@[j].0 as int, e) ==> redir(self.nodes@, self.edges@, m, *ns1[merge@[j].0 as int].state, es0[e]),
        Self::rest(*self, s1),
@@loop {{while let Some($eid:id) = edge_id {}}
    invariant
        model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, dr(r) < k <= nvars::<T>(), r == sp(input.residual),
        m == merged_id.0, 0 < m < ns1.len(), sd(ns1[m]) == k, *ns1[m].state == *merged, fr(ns1[m].flags), !fx(ns1[m].flags),
        drop_id.0 < ns1.len(), sd(ns1[drop_id.0 as int]) == k, drop_id.0 != m, rel(*ns1[drop_id.0 as int].state, *merged), *drop_id == merge@[vp_j as int],
        graph_but(ns1, es0, r, m), froms(ns1, es0, al, k), Self::below(ns1, k),
        self.nodes@.len() == ns1.len(), forall|i: int| 0 <= i < ns1.len() && i != m ==> #[trigger] self.nodes@[i] == ns1[i],
        still(ns1[m], self.nodes@[m]), self.nodes@[m].flags == ns1[m].flags,
        graph_but(self.nodes@, self.edges@, r, m), grows(ns1, es0, self.nodes@, self.edges@), froms(self.nodes@, self.edges@, al, k), Self::below(self.nodes@, k),
        nok(self.nodes@, self.edges@, r, m) || (vp_j == 0 && edge_id == ns1[drop_id.0 as int].inbound && self.nodes@[m] == ns1[m] && ns1[m].value == isize::MIN && ns1[m].best is None),
        forall|j: int, e: int| 0 <= j < vp_j && #[trigger] inb(ns1, es0, merge@[j].0 as int, e) ==> redir(self.nodes@, self.edges@, m, *ns1[merge@[j].0 as int].state, es0[e]),
        edge_id is Some ==> inb(ns1, es0, drop_id.0 as int, hd(edge_id)),
        forall|e: int| #[trigger] inb(ns1, es0, drop_id.0 as int, e) ==> (edge_id is Some && inl(es0, hd(edge_id), e)) || redir(self.nodes@, self.edges@, m, *ns1[drop_id.0 as int].state, es0[e]),
        Self::rest(*self, s1),
    ensures edge_id is None,
    decreases hd(edge_id) + 1
@@after {{let edge = self.edges[eid.0];}}
    let ghost nb = self.nodes@; let ghost eb = self.edges@; let ghost h = eid.0 as int; let ghost dd = drop_id.0 as int;
    proof { assert(eok(ns1, es0, dd, h)); assert(eb[h] == es0[h]); let f = edge.from.0 as int; assert(sd(ns1[f]) + 1 == k); assert(f != m); assert(nb[f] == ns1[f]); assert(nok(nb, eb, r, f)); vok_small(nb, r, f); assert(nb[dd] == ns1[dd]); }
@@before {{edge_id = edge.next;}}
    proof {
        let x = self.edges@[eb.len() as int]; let fs = self.edges@; let ms = self.nodes@;
        assert(fs =~= eb.push(x));
        merge_step(nb, eb, r, ms, m, x, k);
        grows_trans(ns1, es0, nb, eb, ms, fs);
        assert forall|j: int, e: int| 0 <= j < vp_j && #[trigger] inb(ns1, es0, merge@[j].0 as int, e) implies redir(ms, fs, m, *ns1[merge@[j].0 as int].state, es0[e]) by {
            redir_grows(nb, eb, ms, fs, m, *ns1[merge@[j].0 as int].state, es0[e]);
        }
        assert(inb(ms, fs, m, eb.len() as int) && fs[eb.len() as int].from == es0[h].from);
        assert(redir(ms, fs, m, *ns1[dd].state, es0[h]));
        assert forall|e: int| #[trigger] inb(ns1, es0, dd, e) implies (es0[h].next is Some && inl(es0, hd(es0[h].next), e)) || redir(ms, fs, m, *ns1[dd].state, es0[e]) by {
            assert(!inl(es0, -1, e)); if inl(es0, h, e) { } else { redir_grows(nb, eb, ms, fs, m, *ns1[dd].state, es0[e]); }
        }
        if es0[h].next is Some { inl_tail(es0, hd(ns1[dd].inbound), h); }
        assert forall|e: int| 0 <= e < fs.len() implies al.contains((#[trigger] fs[e]).from.0 as int) && fs[e].from.0 < ms.len() && sd(ms[fs[e].from.0 as int]) < k by {
            if e < eb.len() { assert(fs[e] == eb[e]); let g = eb[e].from.0 as int; assert(sd(nb[g]) < k); if g != m { assert(ms[g] == nb[g]); } } else { assert(fs[e] == x); let _ = es0[h]; }
        }
    }
@@afterloop {{while let Some($eid:id) = edge_id {}}
    proof { assert(nok(ns1, es0, r, drop_id.0 as int)); assert(bok(ns1, es0, drop_id.0 as int)); assert(inb(ns1, es0, drop_id.0 as int, hd(ns1[drop_id.0 as int].best))); }
@@afterloop {{for vp_j in 0..merge.len() {}}
    let ghost ms = self.nodes@; let ghost fs = self.edges@;
@@afterloop {{if recycled.is_some() { $...a } else {}}
    proof {
        assert(self.nodes.len() == ms.len());
        if recycled is Some { let q = choose|q: int| 0 <= q < keep@.len() && keep@[q] == recycled->0; assert(keep@[q] == cl1[q]); }
        assert forall|i: int| 0 <= i < ns0.len() implies still(ns0[i], #[trigger] ms[i]) && (sd(ns0[i]) != k ==> still_graph(ns0[i], ms[i]))
                && relax_flags(ns0[i].flags, ms[i].flags, sd(ns0[i]) != k, cut && (exists|j: int| 0 <= j < prev0.len() && (#[trigger] prev0[j]).0 == i)) by {
            assert(still(ns0[i], nsa[i])); assert(alike(ns0[i], nsa[i]));
            if i != m { assert(ns1[i] == nsa[i]); assert(ms[i] == ns1[i]); }
        }
        assert forall|i: int, e: int| 0 <= i < ns0.len() && #[trigger] inb(ns0, es0, i, e) implies inb(ns1, es0, i, e) by { assert(inb(nsa, es0, i, e)); }
        assert forall|j: int, e: int| input.max_width - 1 <= j < cl1.len() && #[trigger] inb(ns1, es0, cl1[j].0 as int, e) implies redir(ms, fs, m, *ns0[cl1[j].0 as int].state, es0[e]) by {
            let jj = j - (input.max_width - 1);
            assert(merge@[jj] == cl1[j]);
            assert(inb(ns1, es0, merge@[jj].0 as int, e));
            let w = cl1[j].0 as int; assert(still(ns0[w], nsa[w])); assert(ns1[w] == nsa[w]);
        }
        relax_done(ns0, es0, ns1, ms, fs, r, cl0, cl1, curr_l@, al, k, m, input.max_width as int, recycled is Some);
    }
@@end

@@fn src/mdd/with_all.rs {{impl<T> All<T>}} has_exact_best_path
@@sig {{node: Option<NodeId>}} => {{node: Option<NodeId>, Ghost(r): Ghost<SP<T>>}}
@@rewrite {{self.has_exact_best_path($o:id.best.map(|$e:id| $...x))}} => {{self.has_exact_best_path(match $o.best { Some($e) => Some($x), None => None }, Ghost(r))}}
@@spec
    requires graph(self.nodes@, self.edges@, r), dr(r) >= 0, $p1 is Some ==> ($p1->0).0 < self.nodes@.len(),
    ensures ret && $p1 is Some ==> rpath(self.nodes@, self.edges@, sd(self.nodes@[($p1->0).0 as int]) - dr(r), ($p1->0).0 as int),
    decreases (match $p1 { Some(x) => sd(self.nodes@[x.0 as int]) - dr(r) + 1, None => 0 }),
@@entry
    proof {
        if $p1 is Some {
            let i = ($p1->0).0 as int; assert(nok(self.nodes@, self.edges@, r, i));
            if fx(self.nodes@[i].flags) { fx_path(self.nodes@, self.edges@, r, i); }
            if i > 0 { let b = hd(self.nodes@[i].best); assert(inb(self.nodes@, self.edges@, i, b)); assert(eok(self.nodes@, self.edges@, i, b)); assert(nok(self.nodes@, self.edges@, r, bpar(self.nodes@, self.edges@, i))); }
        }
    }
@@end

@@fn src/mdd/with_all.rs {{impl<T> All<T>}} _is_exact
@@sig {{comp_type: CompilationType}} => {{comp_type: CompilationType, Ghost(r): Ghost<SP<T>>}}
@@rewrite {{self.has_exact_best_path($...e)}} => {{self.has_exact_best_path($e, Ghost(r))}}
@@spec
    requires graph(self.nodes@, self.edges@, r), dr(r) >= 0, self.best_n is Some ==> (self.best_n->0).0 < self.nodes@.len(),
    ensures ret ==> !self.approximate || ($p1 == CompilationType::Relaxed && (self.best_n is Some ==> rpath(self.nodes@, self.edges@, sd(self.nodes@[(self.best_n->0).0 as int]) - dr(r), (self.best_n->0).0 as int))),
        !ret ==> self.approximate,
@@end

@@fn src/mdd/with_all.rs {{impl<T> All<T>}} _best_value
@@rewrite {{self.best_n.map(|$i:id| $...x)}} => {{match self.best_n { Some($i) => Some($x), None => None }}}
@@spec
    requires self.best_n is Some ==> (self.best_n->0).0 < self.nodes@.len(),
    ensures ret is Some == self.best_n is Some, ret is Some ==> ret->0 == self.nodes@[(self.best_n->0).0 as int].value,
@@end

@@fn src/mdd/with_all.rs {{impl<T> All<T>}} _best_path_partial_borrow
@@sig {{root_pa: &[Decision], nodes: &[Node<T>], edges: &[Edge],}} => {{root_pa: &Vec<Decision>, nodes: &Vec<Node<T>>, edges: &Vec<Edge>, Ghost(r): Ghost<SP<T>>}}
@@rewrite {{root_pa.to_owned()}} => {{vp_owned(root_pa)}}
@@spec
    requires graph($p3@, $p4@, r), dr(r) >= 0, $p1.0 < $p3@.len(),
    ensures ret@.to_multiset() =~= $p2@.to_multiset().add(bp($p3@, $p4@, sd($p3@[$p1.0 as int]) - dr(r), $p1.0 as int).to_multiset()),
@@entry
    let ghost ns = $p3@; let ghost es = $p4@; let ghost mut c = $p1.0 as int;
    proof { assert(nok(ns, es, r, c)); }
@@loop {{while let Some($eid:id) = edge_id {}}
    invariant
        ns == nodes@, es == edges@, graph(ns, es, r), dr(r) >= 0, 0 <= c < ns.len(), edge_id == ns[c].best, nok(ns, es, r, c),
        sol@.to_multiset().add(bp(ns, es, sd(ns[c]) - dr(r), c).to_multiset()) =~= root_pa@.to_multiset().add(bp(ns, es, sd(ns[$p1.0 as int]) - dr(r), $p1.0 as int).to_multiset()),
    ensures edge_id is None,
    decreases sd(ns[c]) - dr(r)
@@after {{let edge = $...e;}}
    proof {
        let b = eid.0 as int; let p = es[b].from.0 as int;
        assert(inb(ns, es, c, b)); assert(eok(ns, es, c, b)); assert(nok(ns, es, r, p));
        let f = bp(ns, es, sd(ns[p]) - dr(r), p);
        assert(bp(ns, es, sd(ns[c]) - dr(r), c) == f.push(edge.decision));
        f.to_multiset_ensures(); sol@.to_multiset_ensures();
        assert(f.push(edge.decision).to_multiset() =~= f.to_multiset().insert(edge.decision));
        assert(sol@.push(edge.decision).to_multiset() =~= sol@.to_multiset().insert(edge.decision));
        c = p;
    }
@@afterloop {{while let Some($eid:id) = edge_id {}}
    proof { assert(c == 0); assert(bp(ns, es, sd(ns[c]) - dr(r), c) =~= Seq::<Decision>::empty()); Seq::<Decision>::empty().to_multiset_ensures(); assert(Seq::<Decision>::empty().to_multiset() =~= vstd::multiset::Multiset::<Decision>::empty()); }
@@end

@@fn src/mdd/with_all.rs {{impl<T> All<T>}} _best_path
@@sig {{id: NodeId}} => {{id: NodeId, Ghost(r): Ghost<SP<T>>}}
@@rewrite {{_best_path_partial_borrow($...e)}} => {{_best_path_partial_borrow($e, Ghost(r))}}
@@spec
    requires graph(self.nodes@, self.edges@, r), dr(r) >= 0, $p1.0 < self.nodes@.len(),
    ensures ret@.to_multiset() =~= self.root_pa@.to_multiset().add(bp(self.nodes@, self.edges@, sd(self.nodes@[$p1.0 as int]) - dr(r), $p1.0 as int).to_multiset()),
@@end

@@fn src/mdd/with_all.rs {{impl<T> All<T>}} _best_solution
@@sig {{(&self)}} => {{(&self, Ghost(r): Ghost<SP<T>>)}}
@@rewrite {{self.best_n.map(|$i:id| self._best_path($...x))}} => {{match self.best_n { Some($i) => Some(self._best_path($x, Ghost(r))), None => None }}}
@@spec
    requires self.best_n is Some ==> graph(self.nodes@, self.edges@, r) && dr(r) >= 0 && (self.best_n->0).0 < self.nodes@.len(),
    ensures ret is Some == self.best_n is Some, ret is Some ==> (ret->0)@.to_multiset() =~= self.root_pa@.to_multiset().add(bp(self.nodes@, self.edges@, sd(self.nodes@[(self.best_n->0).0 as int]) - dr(r), (self.best_n->0).0 as int).to_multiset()),
@@end

@@fn src/mdd/with_all.rs {{impl<T> All<T>}} new
@@spec
    ensures ret.cutset_type == $p1,
@@end

@@fn src/mdd/with_all.rs {{impl<T> All<T>}} clear
@@spec
    requires obeys_key_model::<Arc<T>>(),
    ensures final(self).root_pa@.len() == 0, final(self).nodes@.len() == 0, final(self).edges@.len() == 0, final(self).next_l@ == Map::<Arc<T>, NodeId>::empty(), final(self).cutset@.len() == 0,
        final(self).best_n is None, !final(self).approximate, final(self).cutset_type == old(self).cutset_type, final(self).explored == 0,
@@end

@@fn src/mdd/with_all.rs {{impl<T> All<T>}} _compile
@@attr verifier::spinoff_prover
@@rewrite {{input.residual.path.iter().copied().for_each(|$x:id| self.root_pa.push($y:id));}} => {{for vp_i in 0..input.residual.path.len() { let $x = input.residual.path[vp_i]; self.root_pa.push($y); }}}
@@rewrite {{input.problem.next_variable(&mut self.next_l.keys().map(|$s:id| $...e))}} => {{input.problem.vp_next_variable(&self.next_l)}}
@@rewrite {{for $n:id in curr_l.drain(..) {}} => {{let vp_c = vp_drain(&mut curr_l); for vp_i in 0..vp_c.len() { let $n = vp_c[vp_i];}}
@@rewrite {{for (_, $n:id) in self.next_l.drain() {}} => {{let vp_t = vp_drain_values(&mut self.next_l); for vp_i in 0..vp_t.len() { let $n = vp_t[vp_i];}}
@@rewrite {{self.relax($...e)}} => {{self.relax($e, Ghost(al), Ghost(k))}}
@@rewrite {{for $n:id in curr_l.iter() {}} => {{for vp_k in 0..curr_l.len() { let $n = &curr_l[vp_k];}}
@@rewrite {{input.problem.for_each_in_domain($v:id, $...s, |$d:id| {$...b});}} => {{let vp_d = input.problem.vp_domain($v, $s); for vp_q in 0..vp_d.len() { let $d = vp_d[vp_q]; {$b}; }}}
@@rewrite {{self.branch_on($...e)}} => {{self.branch_on($e, Ghost(r))}}
@@rewrite {{self.best_n = self.next_l.values().copied().max_by_key(|$i:id| $...e);}} => {{let vp_t = vp_values(&self.next_l); let mut vp_b: Option<NodeId> = None; for vp_m in 0..vp_t.len() { let vp_x = vp_t[vp_m]; let vp_more = match vp_b { None => true, Some(vp_y) => { let $i = &vp_x; let vp_u = $e; let $i = &vp_y; let vp_w = $e; vp_u >= vp_w } }; if vp_more { vp_b = Some(vp_x); } } self.best_n = vp_b;}}
@@rewrite* {{self._is_exact($...e)}} => {{self._is_exact($e, Ghost(r))}}
@@rewrite {{self.compute_local_bounds()}} => {{self.compute_local_bounds(Ghost(r), Ghost(k))}}
@@rewrite* {{.as_ref()}} => {{.vp_ref()}}
@@spec
    requires
        obeys_key_model::<Arc<T>>(), model_ok::<T>(), small::<T>($p1.residual.value as int), 0 <= dr(sp($p1.residual)) <= nvars::<T>(), $p1.max_width >= 1,
    ensures comp_ok(final(self).nodes@, final(self).edges@, final(self).cutset@, final(self).best_n, final(self).root_pa@, final(self).exact, sp($p1.residual), $p1.comp_type, $p1.best_lb as int),
@@entry
    let ghost r = sp(input.residual); let ghost ty = input.comp_type; let ghost lb = input.best_lb as int; let ghost lel = self.cutset_type == CutsetType::LastExactLayer;
    let ghost mut k = dr(r); let ghost mut al = ISet::<int>::empty().insert(0); let ghost mut lc = 0int; let ghost mut seen = Set::<int>::empty();
    proof { lim_mono::<T>(0, nvars::<T>() + 1); lim_mono::<T>(0, nvars::<T>()); }
@@loop {{for vp_i in 0..input.residual.path.len() {}}
    invariant
        self.root_pa@ =~= input.residual.path@.subrange(0, vp_i as int), self.nodes@.len() == 0, self.edges@.len() == 0, self.next_l@ == Map::<Arc<T>, NodeId>::empty(), self.cutset@.len() == 0,
        self.best_n is None, !self.approximate, lel == (self.cutset_type == CutsetType::LastExactLayer), self.explored == 0,
@@before {{while let Some($v:id) = input.problem.vp_next_variable(&self.next_l) {}}
    proof {
        let ns = self.nodes@; let es = self.edges@;
        assert forall|i: int, e: int| inb(ns, es, i, e) implies false by { }
        assert(vok(ns, r, 0)); assert(nok(ns, es, r, 0));
        assert(graph(ns, es, r)); assert(nfresh(ns, r, true, 0));
        assert(dinv(ns, es, r, al, self.cutset@, true, false, lc, k));
        assert(layer(ns, al, self.next_l@, k));
        assert(lay_ids(ns, al, curr_l@, k - 1)) by { assert forall|i: int| 0 <= i < ns.len() && #[trigger] al.contains(i) && sd(ns[i]) == k - 1 implies curr_l@.contains(NodeId(i as usize)) by { } }
        assert(all_cov(ns, es, al, lb, k)) by { assert forall|u: int| #[trigger] al.contains(u) && sd(ns[u]) < k implies covered(ns, es, al, lb, u) by { } }
    }
@@loop {{while let Some($v:id) = input.problem.vp_next_variable(&self.next_l) {}}
    invariant
        obeys_key_model::<Arc<T>>(), model_ok::<T>(), small::<T>(r.value), 0 <= dr(r) <= nvars::<T>(), input.max_width >= 1, -big() <= r.value <= big(),
        r == sp(input.residual), ty == input.comp_type, lb == input.best_lb, lel == (self.cutset_type == CutsetType::LastExactLayer),
        dinv(self.nodes@, self.edges@, r, al, self.cutset@, ty != CompilationType::Relaxed || !self.approximate, lel && ty == CompilationType::Relaxed && self.approximate, lc, k), layer(self.nodes@, al, self.next_l@, k),
        vp_k(k), depth == k - dr(r), self.root_pa@ =~= r.path, self.best_n is None, self.approximate ==> k > dr(r) && ty != CompilationType::Exact,
        lay_ids(self.nodes@, al, curr_l@, k - 1),
        ty != CompilationType::Restricted || !self.approximate ==> all_cov(self.nodes@, self.edges@, al, lb, k),
        seen_ok(self.nodes@, seen, k, Seq::<NodeId>::empty(), 0), self.explored <= seen.len(),
    ensures self.next_l@.dom().len() > 0 ==> k == nvars::<T>(),
    decreases nvars::<T>() - k + 1
@@before {{self.prev_l.clear();}}
    let ghost s0 = *self; let ghost cl0 = curr_l@; let ghost nl0 = self.next_l@;
@@loop {{for vp_i in 0..vp_c.len() {}}
    invariant
        self.prev_l@ =~= vp_c@.subrange(0, vp_i as int), curr_l@.len() == 0, vp_c@ == cl0,
        self.nodes == s0.nodes && self.edges == s0.edges && self.root_pa == s0.root_pa && self.next_l == s0.next_l && self.cutset == s0.cutset && self.best_n == s0.best_n && self.exact == s0.exact && self.approximate == s0.approximate && self.cutset_type == s0.cutset_type && self.explored == s0.explored,
@@before {{for vp_i in 0..vp_t.len() {}}
    let ghost ks = choose|ks: Seq<Arc<T>>| #[trigger] listing(nl0, ks, vp_t@);
@@loop {{for vp_i in 0..vp_t.len() {}}
    invariant
        self.prev_l@ =~= cl0, curr_l@ =~= vp_t@.subrange(0, vp_i as int), self.next_l@ == Map::<Arc<T>, NodeId>::empty(),
        self.nodes == s0.nodes && self.edges == s0.edges && self.root_pa == s0.root_pa && self.cutset == s0.cutset && self.best_n == s0.best_n && self.exact == s0.exact && self.approximate == s0.approximate && self.cutset_type == s0.cutset_type && self.explored == s0.explored,
@@afterloop {{for vp_i in 0..vp_t.len() {}}
    proof {
        assert(curr_l@ =~= vp_t@);
        drained(self.nodes@, al, nl0, k, ks, curr_l@);
        if curr_l@.len() == 0 {
            assert forall|i: int| #[trigger] al.contains(i) implies sd(self.nodes@[i]) != k by { let _ = self.nodes@[i]; }
            if ty != CompilationType::Restricted || !self.approximate { compiled_empty(self.nodes@, self.edges@, r, al, self.cutset@, ty != CompilationType::Relaxed || !self.approximate, lel && ty == CompilationType::Relaxed && self.approximate, lc, k, lb); }
        } else {
            assert(curr_l@[0].0 < self.nodes@.len()); assert(k < nvars::<T>()) by {
                assert(nl0.contains_key(ks[0])); assert(nl0.dom().contains(ks[0])); 
                assert(nl0.dom().len() > 0);
            }
        }
    }
@@before {{match input.comp_type {}}
    let ghost s1 = *self; let ghost cl1 = curr_l@;
@@afterloop {{match input.comp_type {}}
    proof {
        assert(self.nodes.len() == self.nodes@.len());
        if ty == CompilationType::Restricted && cl1.len() > input.max_width {
            restricted(s1.nodes@, s1.edges@, r, al, s1.cutset@, lc, k, curr_l@, cl1);
            al = relayed(s1.nodes@, al, curr_l@, k);
        } else if ty == CompilationType::Relaxed && cl1.len() > input.max_width && depth > 1 {
            Self::relaxed_inv(s1, *self, r, al, k, curr_l@, lel, lc, lb);
            al = relayed(self.nodes@, al, curr_l@, k);
            lc = if s1.approximate { lc } else { k - 1 };
            assert forall|i: int| #[trigger] seen.contains(i) implies 0 <= i < self.nodes@.len() && sd(self.nodes@[i]) < k by { assert(still(s1.nodes@[i], self.nodes@[i])); }
        }
        dinv_down(self.nodes@, self.edges@, r, al, self.cutset@, ty != CompilationType::Relaxed || !self.approximate, lel && ty == CompilationType::Relaxed && self.approximate, lc, k);
    }
    let ghost s2 = *self; let ghost cl = curr_l@; let ghost all = ty != CompilationType::Relaxed || !self.approximate; let ghost on = lel && ty == CompilationType::Relaxed && self.approximate; let ghost mode = ty != CompilationType::Restricted || !self.approximate;
@@loop {{for vp_k in 0..curr_l.len() {}}
    invariant
        obeys_key_model::<Arc<T>>(), model_ok::<T>(), small::<T>(r.value), 0 <= dr(r), input.max_width >= 1, -big() <= r.value <= big(),
        r == sp(input.residual), lb == input.best_lb, cl == curr_l@, k < nvars::<T>(), on ==> lc < k, var == order::<T>(k),
        self.root_pa == s2.root_pa && self.cutset == s2.cutset && self.best_n == s2.best_n && self.exact == s2.exact && self.approximate == s2.approximate && self.cutset_type == s2.cutset_type,
        dinv(self.nodes@, self.edges@, r, al, self.cutset@, all, on, lc, k + 1), layer(self.nodes@, al, self.next_l@, k + 1), lay_ids(self.nodes@, al, cl, k),
        mode ==> cov_upto(self.nodes@, self.edges@, al, lb, k, cl, vp_k as int),
        seen_ok(self.nodes@, seen, k, cl, vp_k as int), self.explored <= seen.len(),
@@after {{let $n:id = &curr_l[vp_k];}}
    let ghost u = node_id.0 as int; let ghost na = self.nodes@; let ghost ea = self.edges@; let ghost ala = al;
    proof { assert(cl[vp_k as int].0 == u); assert(nok(na, ea, r, u)); vok_small(na, r, u); lim_mono::<T>(nvars::<T>() - sd(na[u]), nvars::<T>() + 1); }
@@after {{self.nodes[node_id.0].rub = rub;}}
    proof {
        rub_step(na, ea, r, al, self.cutset@, all, on, lc, k + 1, self.nodes@, u, self.next_l@, cl, k, lb);
        assert(alike(na[u], self.nodes@[u]));
        assert forall|i: int| 0 <= i < na.len() implies sd(#[trigger] self.nodes@[i]) == sd(na[i]) by { assert(alike(na[i], self.nodes@[i])); }
    }
    let ghost nb = self.nodes@;
@@before {{if ub > input.best_lb {}}
    proof { if ub <= input.best_lb { ruled_out(nb, ea, al, lb, u); } }
@@loop {{for vp_q in 0..vp_d.len() {}}
    invariant
        obeys_key_model::<Arc<T>>(), model_ok::<T>(), small::<T>(r.value), 0 <= dr(r), -big() <= r.value <= big(),
        r == sp(input.residual), lb == input.best_lb, cl == curr_l@, k < nvars::<T>(), on ==> lc < k,
        self.root_pa == s2.root_pa && self.cutset == s2.cutset && self.best_n == s2.best_n && self.exact == s2.exact && self.approximate == s2.approximate && self.cutset_type == s2.cutset_type,
        dinv(self.nodes@, self.edges@, r, al, self.cutset@, all, on, lc, k + 1), layer(self.nodes@, al, self.next_l@, k + 1), lay_ids(self.nodes@, al, cl, k),
        mode ==> cov_upto(self.nodes@, self.edges@, al, lb, k, cl, vp_k as int), u == cl[vp_k as int].0, *node_id == cl[vp_k as int], vp_k < cl.len(),
        seen_ok(self.nodes@, seen, k, cl, vp_k as int), self.explored <= seen.len(),
        u < nb.len() <= self.nodes@.len(), self.nodes@[u] == nb[u],
        forall|d: Decision| vp_d@.contains(d) ==> #[trigger] indom(*nb[u].state, d),
        forall|q: int| 0 <= q < vp_q ==> went(self.nodes@, self.edges@, al, u, #[trigger] vp_d@[q]),
@@after {{let $d:id = vp_d[vp_q];}}
    let ghost sb = *self; let ghost alb = al;
    proof { assert(vp_d@.contains(decision)); assert(self.nodes.len() == self.nodes@.len()); assert(sd(self.nodes@[u]) == k); }
@@endof {{for vp_q in 0..vp_d.len() {}}
    proof {
        Self::branched_inv(sb, *self, r, *node_id, decision, alb, cl, all, on, lc, lb);
        let ns = sb.nodes@; let ms = self.nodes@;
        al = alb.insert(self.next_l@[kid(ns[u], decision)].0 as int);
        if mode {
            assert forall|x: int| #[trigger] al.contains(x) && sd(ms[x]) < k implies covered(ms, self.edges@, al, lb, x) by { assert(covered(ns, sb.edges@, alb, lb, x)); }
            assert forall|j: int| 0 <= j < vp_k implies covered(ms, self.edges@, al, lb, (#[trigger] cl[j]).0 as int) by { let x = cl[j].0 as int; assert(covered(ns, sb.edges@, alb, lb, x)); assert(sd(ns[x]) == k); }
        }
        assert forall|i: int| 0 <= i < ns.len() implies sd(#[trigger] ms[i]) == sd(ns[i]) by { assert(*ms[i].state == *ns[i].state); }
        assert forall|q: int| 0 <= q < vp_q + 1 implies went(ms, self.edges@, al, u, #[trigger] vp_d@[q]) by { if q < vp_q { assert(went(ns, sb.edges@, alb, u, vp_d@[q])); } }
        assert(seen_ok(ms, seen, k, cl, vp_k as int)) by { assert forall|i: int| #[trigger] seen.contains(i) implies 0 <= i < ms.len() && (sd(ms[i]) < k || exists|j: int| 0 <= j < vp_k && (#[trigger] cl[j]).0 == i) by { } }
    }
@@before {{self.explored += 1;}}
    proof {
        let ns = self.nodes@;
        assert forall|d: Decision| #[trigger] indom(*ns[u].state, d) implies went(ns, self.edges@, al, u, d) by { assert(vp_d@.contains(d)); let q = choose|q: int| 0 <= q < vp_d@.len() && vp_d@[q] == d; assert(went(ns, self.edges@, al, u, vp_d@[q])); }
        went_all(ns, self.edges@, al, lb, u);
        assert(!seen.contains(u)) by { if seen.contains(u) { assert(sd(ns[u]) == k); let j = choose|j: int| 0 <= j < vp_k && (#[trigger] cl[j]).0 == u; assert(cl[j] == cl[vp_k as int]); } }
        let sn = seen.insert(u);
        seen_bound(sn, ns.len() as int);
        assert(self.nodes.len() == ns.len());
        assert(seen_ok(ns, sn, k, cl, vp_k + 1)) by {
            assert forall|i: int| #[trigger] sn.contains(i) implies 0 <= i < ns.len() && (sd(ns[i]) < k || exists|j: int| 0 <= j < vp_k + 1 && (#[trigger] cl[j]).0 == i) by {
                if i == u { assert(cl[vp_k as int].0 == i); } else { assert(seen.contains(i)); }
            }
        }
        seen = sn;
    }
@@afterloop {{for vp_k in 0..curr_l.len() {}}
    proof {
        let ns = self.nodes@;
        if mode {
            assert forall|x: int| #[trigger] al.contains(x) && sd(ns[x]) < k + 1 implies covered(ns, self.edges@, al, lb, x) by {
                if sd(ns[x]) == k { assert(cl.contains(NodeId(x as usize))); let j = choose|j: int| 0 <= j < cl.len() && cl[j] == NodeId(x as usize); assert(self.nodes.len() == ns.len()); assert(cl[j].0 == x); }
            }
        }
        assert(seen_ok(ns, seen, k + 1, Seq::<NodeId>::empty(), 0)) by {
            assert forall|i: int| #[trigger] seen.contains(i) implies 0 <= i < ns.len() && sd(ns[i]) < k + 1 by { if !(sd(ns[i]) < k) { let j = choose|j: int| 0 <= j < cl.len() && (#[trigger] cl[j]).0 == i; assert(sd(ns[cl[j].0 as int]) == k); } }
        }
        k = k + 1;
    }
@@before {{for vp_m in 0..vp_t.len() {}}
    let ghost ks = choose|ks: Seq<Arc<T>>| #[trigger] listing(self.next_l@, ks, vp_t@); let ghost nl = self.next_l@;
@@loop {{for vp_m in 0..vp_t.len() {}}
    invariant
        listing(nl, ks, vp_t@), layer(self.nodes@, al, nl, k),
        vp_b is None ==> vp_m == 0, vp_b is Some ==> exists|j: int| 0 <= j < vp_m && #[trigger] vp_t@[j] == vp_b->0,
        vp_b is Some ==> (vp_b->0).0 < self.nodes@.len() && sd(self.nodes@[(vp_b->0).0 as int]) == k && forall|j: int| 0 <= j < vp_m ==> self.nodes@[(vp_b->0).0 as int].value >= self.nodes@[(#[trigger] vp_t@[j]).0 as int].value,
@@after {{let vp_x = vp_t[vp_m];}}
    proof { assert(nl.contains_key(ks[vp_m as int])); assert(vp_t@[vp_m as int] == vp_x); }
@@before {{self.best_n = vp_b;}}
    proof {
        let ns = self.nodes@; let es = self.edges@;
        let all = ty != CompilationType::Relaxed || !self.approximate; let on = lel && ty == CompilationType::Relaxed && self.approximate;
        if vp_b is None {
            assert forall|i: int| #[trigger] al.contains(i) implies sd(ns[i]) != k by { let _ = ns[i]; if sd(ns[i]) == k { assert(nl.contains_key(ns[i].state)); let q = choose|q: int| 0 <= q < ks.len() && #[trigger] ks[q] == ns[i].state; } }
            if ty != CompilationType::Restricted || !self.approximate { compiled_empty(ns, es, r, al, self.cutset@, all, on, lc, k, lb); }
        } else {
            let b = (vp_b->0).0 as int;
            assert(nl.dom().contains(ks[0])) by { assert(nl.contains_key(ks[0])); }
            assert(nl.dom().len() > 0);
            assert forall|i: int| #[trigger] al.contains(i) && sd(ns[i]) == k implies ns[b].value >= ns[i].value by { let _ = ns[i]; assert(nl.contains_key(ns[i].state)); let q = choose|q: int| 0 <= q < ks.len() && #[trigger] ks[q] == ns[i].state; assert(vp_t@[q].0 == i); }
            if ty != CompilationType::Restricted || !self.approximate { compiled_best(ns, es, r, al, self.cutset@, all, on, lc, k, lb, b); }
            if all { assert(nfresh(ns, r, all, b)); fx_path(ns, es, r, b); }
        }
    }
@@before {{if matches!($...e) {}}
    let ghost s3 = *self;
    proof {
        assert(layer(self.nodes@, al, self.next_l@, k)); assert(self.nodes.len() == self.nodes@.len());
        assert forall|i: int| 0 <= i < self.nodes@.len() implies !fm((#[trigger] self.nodes@[i]).flags) && self.nodes@[i].value_bot == isize::MIN by { assert(nfresh(self.nodes@, r, ty != CompilationType::Relaxed || !self.approximate, i)); }
    }
@@endof {{if matches!($...e) {}}
    proof {
        if !self.exact && self.best_n is Some {
            let ns = s3.nodes@; let ms = self.nodes@; let fro = !lel;
            assert(self.cutset_type == CutsetType::Frontier || lel);
            assert forall|i: int| #[trigger] al.contains(i) && sd(ms[i]) == nvars::<T>() implies fm(ms[i].flags) && ms[i].value_bot >= 0 && (fro && fx(ms[i].flags) ==> fc(ms[i].flags)) by { assert(alike(ns[i], ms[i])); let _ = ns[i]; assert(nl.contains_key(ns[i].state)); }
            assert forall|i: int| 0 <= i < ns.len() && sd(#[trigger] ns[i]) == k implies al.contains(i) by { assert(nl.contains_key(ns[i].state)); }
            compiled_cut(ns, ms, self.edges@, r, al, s3.cutset@, self.cutset@, false, fro, lc, k, lb, self.best_n, self.root_pa@);
            let b = (self.best_n->0).0 as int; assert(alike(ns[b], ms[b]));
        }
    }
@@end


@@fn src/mdd/with_all.rs {{impl<T> All<T>}} _drain_cutset
@@sig {{_drain_cutset<F>(&mut self, mut func: F) where F: FnMut(SubProblem<T>),}} => {{_drain_cutset(&mut self, func: &mut Vec<SubProblem<T>>, Ghost(r): Ghost<SP<T>>, Ghost(lb): Ghost<int>)}}
@@rewrite {{func(SubProblem {$...b})}} => {{func.push(SubProblem {$b});}}
@@rewrite {{for $n:id in self.cutset.drain(..) {}} => {{let vp_c = vp_drain(&mut self.cutset); for vp_i in 0..vp_c.len() { let $n = vp_c[vp_i];}}
@@rewrite* {{.min(}} => {{.vp_min(}}
@@rewrite {{_best_path_partial_borrow($n:id, $...e,)}} => {{_best_path_partial_borrow($n, $e, Ghost(r))}}
@@spec
    requires old(func)@.len() == 0, cut_ok(old(self).nodes@, old(self).edges@, old(self).cutset@, old(self).best_n, old(self).root_pa@, r, lb),
    ensures cut_out(r, lb, subs(final(func)@)),
@@entry
    let ghost ns = self.nodes@; let ghost es = self.edges@; let ghost cs = self.cutset@;
@@loop {{for vp_i in 0..vp_c.len() {}}
    invariant
        vp_c@ == cs, self.nodes@ == ns, self.edges@ == es, self.root_pa == old(self).root_pa, self.best_n == old(self).best_n, best_value == ns[(self.best_n->0).0 as int].value,
        cut_ok(ns, es, cs, old(self).best_n, old(self).root_pa@, r, lb), self.best_n is Some,
        forall|j: int| 0 <= j < func@.len() ==> sub_ok(r, lb, sp(#[trigger] func@[j])),
        forall|j: int| 0 <= j < vp_i && fm(ns[(#[trigger] cs[j]).0 as int].flags) ==> exists|q: int| 0 <= q < func@.len() && (#[trigger] func@[q]).value == ns[cs[j].0 as int].value && rs(sp(func@[q])) == *ns[cs[j].0 as int].state,
@@after {{let node = $...e;}}
    let ghost c = node_id.0 as int; let ghost f0 = func@;
    proof { assert(node_id == cs[vp_i as int]); fx_path(ns, es, r, c); path_ext(ns, es, r, c); assert(nok(ns, es, r, c)); }
@@endof {{if node.flags.is_marked() {}}
    proof {
        let q = sp(func@[f0.len() as int]); let f = bp(ns, es, sd(ns[c]) - dr(r), c);
        assert(ext_by(r, q, f));
        assert forall|y: int| #[trigger] rch(rs(q), y) && q.value + y > lb implies q.value + y <= q.ub by { }
        assert(sub_ok(r, lb, q));
        assert forall|j: int| 0 <= j < func@.len() implies sub_ok(r, lb, sp(#[trigger] func@[j])) by { if j < f0.len() { assert(func@[j] == f0[j]); } }
        assert forall|j: int| 0 <= j < vp_i + 1 && fm(ns[(#[trigger] cs[j]).0 as int].flags) implies exists|q: int| 0 <= q < func@.len() && (#[trigger] func@[q]).value == ns[cs[j].0 as int].value && rs(sp(func@[q])) == *ns[cs[j].0 as int].state by {
            if j < vp_i { let q = choose|q: int| 0 <= q < f0.len() && (#[trigger] f0[q]).value == ns[cs[j].0 as int].value && rs(sp(f0[q])) == *ns[cs[j].0 as int].state; assert(func@[q] == f0[q]); }
            else { assert(func@[f0.len() as int].value == ns[c].value); }
        }
    }
@@afterloop {{for vp_i in 0..vp_c.len() {}}
    proof {
        assert forall|y: int| #[trigger] rch(rs(r), y) && r.value + y > lb implies has_sub(subs(func@), r.value + y) by {
            assert(cut_has(ns, cs, r.value + y));
            let j = choose|j: int| 0 <= j < cs.len() && accounts(ns, (#[trigger] cs[j]).0 as int, r.value + y);
            let z = choose|z: int| #[trigger] rch(*ns[cs[j].0 as int].state, z) && ns[cs[j].0 as int].value + z >= r.value + y;
            assert(rch(*ns[cs[j].0 as int].state, z));
            let q = choose|q: int| 0 <= q < func@.len() && (#[trigger] func@[q]).value == ns[cs[j].0 as int].value && rs(sp(func@[q])) == *ns[cs[j].0 as int].state;
            assert(promises(subs(func@)[q], r.value + y));
        }
    }
@@end

@@fn src/mdd/with_all.rs {{impl<T> All<T>}} compute_local_bounds
@@attr verifier::spinoff_prover
@@sig {{(&mut self)}} => {{(&mut self, Ghost(r): Ghost<SP<T>>, Ghost(k0): Ghost<int>)}}
@@rewrite {{for $id:id in self.next_l.values().copied() {}} => {{let vp_t = vp_values(&self.next_l); for vp_i in 0..vp_t.len() { let $id = vp_t[vp_i];}}
@@rewrite {{for $n:id in next_v.drain(..) {}} => {{let vp_c = vp_drain(&mut next_v); for vp_j in 0..vp_c.len() { let $n = vp_c[vp_j];}}
@@spec
    requires
        model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, graph(old(self).nodes@, old(self).edges@, r), Self::below(old(self).nodes@, k0), dr(r) <= k0 <= nvars::<T>(),
        Self::lay(old(self).nodes@, old(self).next_l@, k0), 
        old(self).next_l@.dom().len() > 0 ==> k0 == nvars::<T>(),
        forall|i: int| 0 <= i < old(self).nodes@.len() ==> !fm((#[trigger] old(self).nodes@[i]).flags) && old(self).nodes@[i].value_bot == isize::MIN,
        old(self).cutset_type == CutsetType::Frontier ==> old(self).cutset@.len() == 0 && forall|i: int| 0 <= i < old(self).nodes@.len() ==> !fc((#[trigger] old(self).nodes@[i]).flags),
        old(self).cutset_type == CutsetType::LastExactLayer ==> forall|i: int| 0 <= i < old(self).nodes@.len() && fc((#[trigger] old(self).nodes@[i]).flags) ==> sd(old(self).nodes@[i]) < k0,
    ensures ({
        let ns = old(self).nodes@; let es = old(self).edges@; let ms = final(self).nodes@; let fro = old(self).cutset_type == CutsetType::Frontier;
        &&& final(self).edges == old(self).edges && final(self).root_pa == old(self).root_pa && final(self).next_l == old(self).next_l && final(self).best_n == old(self).best_n
        &&& final(self).exact == old(self).exact && final(self).approximate == old(self).approximate && final(self).cutset_type == old(self).cutset_type
        &&& !final(self).exact ==> {
            &&& locb_base(ns, ms, es, old(self).cutset@, final(self).cutset@, fro, k0)
            &&& forall|s: Arc<T>| #[trigger] old(self).next_l@.contains_key(s) ==> fm(ms[old(self).next_l@[s].0 as int].flags) && ms[old(self).next_l@[s].0 as int].value_bot >= 0
                    && (fro && fx(ms[old(self).next_l@[s].0 as int].flags) ==> fc(ms[old(self).next_l@[s].0 as int].flags))
            &&& done(ms, es, -1, fro)
        }
        &&& final(self).exact ==> final(self).nodes == old(self).nodes && final(self).cutset == old(self).cutset
    }),
@@entry
    let ghost ns0 = self.nodes@; let ghost es = self.edges@; let ghost cs0 = self.cutset@; let ghost fro = self.cutset_type == CutsetType::Frontier; let ghost nl = self.next_l@;
    let ghost mut k = k0; let ghost s0 = *self;
@@before {{for vp_i in 0..vp_t.len() {}}
    let ghost ks = choose|ks: Seq<Arc<T>>| #[trigger] listing(nl, ks, vp_t@);
    proof { lim_mono::<T>(0, nvars::<T>()); assert forall|i: int| 0 <= i < ns0.len() implies 0 <= lim::<T>(nvars::<T>() - sd(#[trigger] ns0[i])) by { assert(nok(ns0, es, r, i)); lim_mono::<T>(0, nvars::<T>() - sd(ns0[i])); } }
@@loop {{for vp_i in 0..vp_t.len() {}}
    invariant
        listing(nl, ks, vp_t@), Self::lay(ns0, nl, k0), vp_t@.len() > 0 ==> k0 == nvars::<T>(),
        self.edges@ == es, fro == (self.cutset_type == CutsetType::Frontier), Self::rest_cut(*self, s0),
        forall|i: int| 0 <= i < ns0.len() ==> 0 <= lim::<T>(nvars::<T>() - sd(#[trigger] ns0[i])),
        locb_base(ns0, self.nodes@, es, cs0, self.cutset@, fro, k0),
        forall|i: int| 0 <= i < ns0.len() ==> fm((#[trigger] self.nodes@[i]).flags) == exists|j: int| 0 <= j < vp_i && (#[trigger] vp_t@[j]).0 == i,
        forall|i: int| 0 <= i < ns0.len() && fm((#[trigger] self.nodes@[i]).flags) ==> self.nodes@[i].value_bot == 0 && (fro && fx(self.nodes@[i].flags) ==> fc(self.nodes@[i].flags)),
        visit@ == vp_t@.subrange(0, vp_i as int), next_v@.len() == 0, marked_cut(self.nodes@, fro),
        !fro ==> forall|i: int| 0 <= i < ns0.len() && fc((#[trigger] ns0[i]).flags) ==> sd(ns0[i]) < k0,
@@after {{let id = vp_t[vp_i];}}
    let ghost na = self.nodes@; let ghost csa = self.cutset@;
    proof { assert(nl.contains_key(ks[vp_i as int])); assert(alike(ns0[id.0 as int], na[id.0 as int])); }
@@endof {{for vp_i in 0..vp_t.len() {}}
    proof {
        let nn = self.nodes@; let x = id.0 as int;
        assert(vp_t@[vp_i as int].0 == x);
        assert forall|i: int| 0 <= i < ns0.len() implies alike(ns0[i], #[trigger] nn[i]) by { assert(alike(ns0[i], na[i])); if i != x { assert(nn[i] == na[i]); } }
        if fro {
            assert forall|i: int| 0 <= i < nn.len() && fc((#[trigger] nn[i]).flags) implies self.cutset@.contains(NodeId(i as usize)) by {
                if i != x || !fx(nn[i].flags) { assert(fc(na[i].flags)); assert(csa.contains(NodeId(i as usize))); let q = choose|q: int| 0 <= q < csa.len() && csa[q] == NodeId(i as usize); assert(self.cutset@[q] == csa[q]); }
                else { assert(self.cutset@[csa.len() as int] == id); }
            }
            assert forall|j: int| 0 <= j < self.cutset@.len() implies okcut(ns0, es, (#[trigger] self.cutset@[j]).0 as int, k0) by { if j < csa.len() { assert(self.cutset@[j] == csa[j]); } }
        }
    }
@@before {{while !visit.is_empty() {}}
    proof {
        assert(visit@ =~= vp_t@); assert(self.nodes.len() == self.nodes@.len());
        assert forall|j: int| 0 <= j < visit@.len() implies (#[trigger] visit@[j]).0 < ns0.len() && sd(self.nodes@[visit@[j].0 as int]) == k0 by { assert(nl.contains_key(ks[j])); assert(alike(ns0[visit@[j].0 as int], self.nodes@[visit@[j].0 as int])); }
        assert forall|s: Arc<T>| #[trigger] nl.contains_key(s) implies fm(self.nodes@[nl[s].0 as int].flags) && sd(self.nodes@[nl[s].0 as int]) == k0 && nl[s].0 < ns0.len() by {
            let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == s; assert(vp_t@[i] == nl[s]);
            assert(alike(ns0[nl[s].0 as int], self.nodes@[nl[s].0 as int]));
        }
        assert forall|i: int| 0 <= i < ns0.len() && fm((#[trigger] self.nodes@[i]).flags) implies visit@.contains(NodeId(i as usize)) && sd(self.nodes@[i]) == k0 by {
            let j = choose|j: int| 0 <= j < vp_t@.len() && (#[trigger] vp_t@[j]).0 == i; assert(visit@[j] == NodeId(i as usize)); 
        }
    }
@@loop {{while !visit.is_empty() {}}
    invariant
        model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, graph(ns0, es, r), k <= k0 <= nvars::<T>(), Self::below(ns0, k0),
        self.edges@ == es, fro == (self.cutset_type == CutsetType::Frontier), Self::rest_cut(*self, s0),
        locb_base(ns0, self.nodes@, es, cs0, self.cutset@, fro, k0),
        vis(self.nodes@, visit@, k, fro), done(self.nodes@, es, k, fro), next_v@.len() == 0, marked_cut(self.nodes@, fro),
        forall|i: int| 0 <= i < ns0.len() && fm((#[trigger] self.nodes@[i]).flags) && sd(self.nodes@[i]) == k0 ==> self.nodes@[i].value_bot >= 0 && (fro && fx(self.nodes@[i].flags) ==> fc(self.nodes@[i].flags)),
        forall|s: Arc<T>| #[trigger] nl.contains_key(s) ==> fm(self.nodes@[nl[s].0 as int].flags) && sd(self.nodes@[nl[s].0 as int]) == k0 && nl[s].0 < ns0.len(),
    decreases k + 1
@@before {{for vp_j in 0..vp_c.len() {}}
    let ghost nb = self.nodes@;
    proof { graph_alike(ns0, nb, es, r, -1); assert(self.nodes.len() == nb.len()); assert(nok(nb, es, r, vp_c@[0].0 as int)); }
@@loop {{for vp_j in 0..vp_c.len() {}}
    invariant
        model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, graph(ns0, es, r), 0 <= k <= k0 <= nvars::<T>(), Self::below(ns0, k0), graph(nb, es, r),
        self.edges@ == es, fro == (self.cutset_type == CutsetType::Frontier), Self::rest_cut(*self, s0),
        vis(nb, vp_c@, k, fro), done(nb, es, k, fro), alike_all(ns0, nb), next_v@.len() == 0,
        locb_base(ns0, self.nodes@, es, cs0, self.cutset@, fro, k0), mono(nb, self.nodes@, k, fro), vis(self.nodes@, visit@, k - 1, fro), marked_cut(self.nodes@, fro),
        forall|j: int| 0 <= j < vp_j ==> closed(self.nodes@, es, fro, (#[trigger] vp_c@[j]).0 as int),
        forall|i: int| 0 <= i < ns0.len() && fm((#[trigger] self.nodes@[i]).flags) && sd(self.nodes@[i]) == k0 ==> self.nodes@[i].value_bot >= 0 && (fro && fx(self.nodes@[i].flags) ==> fc(self.nodes@[i].flags)),
        forall|s: Arc<T>| #[trigger] nl.contains_key(s) ==> fm(self.nodes@[nl[s].0 as int].flags) && sd(self.nodes@[nl[s].0 as int]) == k0 && nl[s].0 < ns0.len(),
    decreases vp_c@.len() - vp_j
@@loop {{while let Some($eid:id) = inbound {}}
    invariant
        model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, graph(ns0, es, r), 0 <= k <= k0 <= nvars::<T>(), Self::below(ns0, k0), graph(nb, es, r),
        self.edges@ == es, fro == (self.cutset_type == CutsetType::Frontier), Self::rest_cut(*self, s0),
        vis(nb, vp_c@, k, fro), done(nb, es, k, fro), alike_all(ns0, nb), next_v@.len() == 0,
        0 <= vp_j < vp_c@.len(), node_id == vp_c@[vp_j as int],
        locb_base(ns0, self.nodes@, es, cs0, self.cutset@, fro, k0), mono(nb, self.nodes@, k, fro), vis(self.nodes@, visit@, k - 1, fro), marked_cut(self.nodes@, fro),
        forall|j: int| 0 <= j < vp_j ==> closed(self.nodes@, es, fro, (#[trigger] vp_c@[j]).0 as int),
        forall|i: int| 0 <= i < ns0.len() && fm((#[trigger] self.nodes@[i]).flags) && sd(self.nodes@[i]) == k0 ==> self.nodes@[i].value_bot >= 0 && (fro && fx(self.nodes@[i].flags) ==> fc(self.nodes@[i].flags)),
        forall|s: Arc<T>| #[trigger] nl.contains_key(s) ==> fm(self.nodes@[nl[s].0 as int].flags) && sd(self.nodes@[nl[s].0 as int]) == k0 && nl[s].0 < ns0.len(),
        inbound is Some ==> inb(nb, es, node_id.0 as int, hd(inbound)),
        forall|e: int| #[trigger] inb(nb, es, node_id.0 as int, e) ==> (inbound is Some && inl(es, hd(inbound), e)) || closed1(self.nodes@, es, fro, node_id.0 as int, e),
    ensures inbound is None,
    decreases hd(inbound) + 1
@@after {{let edge = self.edges[edge_id.0];}}
    let ghost np = self.nodes@; let ghost n = node_id.0 as int; let ghost f = edge.from.0 as int; let ghost h = edge_id.0 as int; let ghost csp = self.cutset@; let ghost vip = visit@;
    proof {
        assert(eok(nb, es, n, h)); assert(f < nb.len());
        assert(alike(nb[n], np[n])); assert(alike(nb[f], np[f])); assert(alike(ns0[n], nb[n])); assert(alike(ns0[f], nb[f]));
        assert(nok(nb, es, r, n)); assert(sd(nb[n]) == k); assert(sd(nb[f]) == k - 1); assert(nok(nb, es, r, f));
        lim_mono::<T>(nvars::<T>() - k, nvars::<T>()); assert(lim::<T>(nvars::<T>() - k + 1) == lim::<T>(nvars::<T>() - k) + cmax::<T>());
        assert(lim::<T>(nvars::<T>() + 1) == lim::<T>(nvars::<T>()) + cmax::<T>());
        vok_small(nb, r, n);
    }
@@before {{inbound = edge.next;}}
    proof {
        let nn = self.nodes@;
        assert(self.nodes.len() == nn.len());
        graph_alike(nb, np, es, r, -1);
        graph_alike(ns0, nb, es, r, -1);
        locb_step(ns0, nb, np, nn, es, r, cs0, csp, self.cutset@, vip, visit@, fro, k, k0, n, h);
        assert forall|j: int| 0 <= j < vp_j implies closed(nn, es, fro, (#[trigger] vp_c@[j]).0 as int) by { assert(alike(nb[vp_c@[j].0 as int], np[vp_c@[j].0 as int])); closed_mono(np, nn, es, r, k, fro, vp_c@[j].0 as int); }
        assert forall|e: int| #[trigger] inb(nb, es, n, e) implies (es[h].next is Some && inl(es, hd(es[h].next), e)) || closed1(nn, es, fro, n, e) by {
            assert(!inl(es, -1, e));
            if !inl(es, h, e) {
                assert(closed1(np, es, fro, n, e)); assert(eok(nb, es, n, e));
                let g = es[e].from.0 as int; assert(alike(np[g], nn[g])); assert(alike(np[n], nn[n]));
            }
        }
        if es[h].next is Some { inl_tail(es, hd(nb[n].inbound), h); }
    }
@@afterloop {{while let Some($eid:id) = inbound {}}
    proof {
        let nn = self.nodes@; let n = node_id.0 as int;
        graph_alike(nb, nn, es, r, -1);
        assert(closed(nn, es, fro, n)) by { assert forall|e: int| #[trigger] inb(nn, es, n, e) implies closed1(nn, es, fro, n, e) by { assert(inb(nb, es, n, e)); } }
    }
@@afterloop {{for vp_j in 0..vp_c.len() {}}
    proof {
        let nn = self.nodes@;
        assert forall|i: int| 0 <= i < nn.len() && fm((#[trigger] nn[i]).flags) && sd(nn[i]) > k - 1 && !stops(nn[i], fro) implies closed(nn, es, fro, i) by {
            assert(alike(nb[i], nn[i])); assert(fm(nb[i].flags));
            if sd(nn[i]) > k { closed_mono(nb, nn, es, r, k, fro, i); }
            else { assert(vp_c@.contains(NodeId(i as usize))); let q = choose|q: int| 0 <= q < vp_c@.len() && vp_c@[q] == NodeId(i as usize); assert(closed(nn, es, fro, vp_c@[q].0 as int)); }
        }
        k = k - 1;
    }
@@end
}
impl<T> DecisionDiagram for All<T>
where
    T: Eq + PartialEq + Hash + Clone,
{
    type State = T;
    open spec fn holds(self, k: Ask<T>) -> bool {
        comp_ok(self.nodes@, self.edges@, self.cutset@, self.best_n, self.root_pa@, self.exact, k.r, k.ty, k.lb) && dr(k.r) >= 0
    }
    open spec fn wf(self) -> bool { self.best_n is Some ==> (self.best_n->0).0 < self.nodes@.len() }
    open spec fn bv(self) -> Option<int> { match self.best_n { Some(b) => Some(self.nodes@[b.0 as int].value as int), None => None } }
    open spec fn ex(self) -> bool { self.exact }
@@fn src/mdd/with_all.rs {{impl<T> DecisionDiagram for All<T>}} compile
@@end
@@fn src/mdd/with_all.rs {{impl<T> DecisionDiagram for All<T>}} is_exact
@@end
@@fn src/mdd/with_all.rs {{impl<T> DecisionDiagram for All<T>}} best_value
@@end
@@fn src/mdd/with_all.rs {{impl<T> DecisionDiagram for All<T>}} best_solution
@@sig {{(&self)}} => {{(&self, Ghost(k): Ghost<Ask<Self::State>>)}}
@@rewrite* {{self._best_solution()}} => {{let vp_r = self._best_solution(Ghost(k.r)); vp_r}}
@@after {{let vp_r = self._best_solution(Ghost(k.r));}}
    proof {
        if self.best_n is Some && (self.exact || k.ty != CompilationType::Relaxed) {
            let b = (self.best_n->0).0 as int; let f = bp(self.nodes@, self.edges@, sd(self.nodes@[b]) - dr(k.r), b);
            path_ext(self.nodes@, self.edges@, k.r, b);
            assert(sol_by(k.r, (vp_r->0)@, self.bv()->0, f));
        }
    }
@@end
@@fn src/mdd/with_all.rs {{impl<T> DecisionDiagram for All<T>}} drain_cutset
@@sig {{drain_cutset<F>(&mut self, func: F) where F: FnMut(SubProblem<T>),}} => {{drain_cutset(&mut self, func: &mut Vec<SubProblem<T>>, Ghost(k): Ghost<Ask<T>>)}}
@@rewrite* {{self._drain_cutset(func)}} => {{self._drain_cutset(func, Ghost(k.r), Ghost(k.lb))}}
@@end
}
}
fn main() {}
