// ---------------------------------------------------------------- the invariant of the compilation
pub open spec fn rubok<T>(n: Node<T>) -> bool { forall|y: int| #[trigger] rch(*n.state, y) ==> y <= n.rub }
pub open spec fn nfresh<T>(ns: Seq<Node<T>>, r: SP<T>, all: bool, i: int) -> bool {
    &&& (all || sd(ns[i]) <= dr(r) + 1) ==> fx(ns[i].flags)
    &&& !fm(ns[i].flags) && ns[i].value_bot == isize::MIN && ns[i].depth == sd(ns[i]) && ns[i].value <= ns[i].theta
    &&& i > 0 ==> rubok(ns[i])
}
/// last exact layer lc once something was merged (on), no cutset before
pub open spec fn cuts<T>(ns: Seq<Node<T>>, r: SP<T>, al: ISet<int>, cs: Seq<NodeId>, on: bool, lc: int, k: int) -> bool {
    if on {
        &&& dr(r) < lc < k
        &&& forall|j: int| 0 <= j < cs.len() ==> (#[trigger] cs[j]).0 < ns.len() && sd(ns[cs[j].0 as int]) == lc && fx(ns[cs[j].0 as int].flags) && al.contains(cs[j].0 as int) && !fp(ns[cs[j].0 as int].flags) && fc(ns[cs[j].0 as int].flags)
        &&& forall|i: int| #[trigger] al.contains(i) && sd(ns[i]) == lc && !fp(ns[i].flags) ==> cs.contains(NodeId(i as usize))
        &&& forall|i: int| 0 <= i < ns.len() && fc((#[trigger] ns[i]).flags) ==> sd(ns[i]) == lc && cs.contains(NodeId(i as usize))
    } else { cs.len() == 0 && forall|i: int| 0 <= i < ns.len() ==> !fc((#[trigger] ns[i]).flags) }
}
/// nodes are numbered layer by layer
#[verifier::opaque]
pub open spec fn sorted<T>(ns: Seq<Node<T>>) -> bool { forall|i: int, j: int| 0 <= i <= j < ns.len() ==> sd(#[trigger] ns[i]) <= sd(#[trigger] ns[j]) }
/// a layer that was not processed yet
pub open spec fn newl<T>(ns: Seq<Node<T>>, es: Seq<Edge>, k: int) -> bool {
    forall|i: int| 0 <= i < ns.len() && sd(ns[i]) == k ==> (#[trigger] ns[i]).theta == isize::MAX && !fp(ns[i].flags) && !fd(ns[i].flags) && allreal(ns, es, i)
}
/// all layers above depth k are there, layer k may be growing
pub open spec fn dinv<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, cs: Seq<NodeId>, all: bool, on: bool, lc: int, k: int) -> bool {
    &&& graph(ns, es, r) && alive_ok(ns, al) && froms(ns, es, al, k) && dr(r) <= k <= nvars::<T>()
    &&& forall|i: int| 0 <= i < ns.len() ==> sd(#[trigger] ns[i]) <= k
    &&& forall|i: int| 0 <= i < ns.len() ==> #[trigger] nfresh(ns, r, all, i)
    &&& cuts(ns, r, al, cs, on, lc, k) && sorted(ns)
}
/// the map nl holds exactly the alive nodes of depth k
pub open spec fn layer<T>(ns: Seq<Node<T>>, al: ISet<int>, nl: Map<Arc<T>, NodeId>, k: int) -> bool {
    &&& forall|s: Arc<T>| #[trigger] nl.contains_key(s) ==> nl[s].0 < ns.len() && *ns[nl[s].0 as int].state == *s && sdepth(*s) == k && al.contains(nl[s].0 as int)
    &&& forall|i: int| 0 <= i < ns.len() && sd(#[trigger] ns[i]) == k ==> nl.contains_key(ns[i].state) && nl[ns[i].state].0 == i
}
/// one more node, at depth k at most
pub proof fn sorted_keep<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, k: int)
    requires sorted(ns), ns.len() <= ms.len() <= ns.len() + 1, forall|i: int| 0 <= i < ns.len() ==> sd(#[trigger] ms[i]) == sd(ns[i]) <= k, ms.len() > ns.len() ==> sd(ms[ns.len() as int]) == k
    ensures sorted(ms)
{
    reveal(sorted);
    assert forall|p: int, q: int| 0 <= p <= q < ms.len() implies sd(#[trigger] ms[p]) <= sd(#[trigger] ms[q]) by { let _ = ms[q]; if q < ns.len() { assert(sd(ns[p]) <= sd(ns[q])); } }
}
/// an early record: justified by lb, or by an exact node of the diagram that is worth at least as much
pub open spec fn erec1<T>(ns: Seq<Node<T>>, al: ISet<int>, q: Rec<T>, k: int, n: int) -> bool { al.contains(n) && fx(ns[n].flags) && !fp(ns[n].flags) && sd(ns[n]) < k && *ns[n].state == q.s && q.th <= ns[n].value }
pub open spec fn erec<T>(ns: Seq<Node<T>>, al: ISet<int>, lb: int, q: Rec<T>, k: int) -> bool {
    !q.ex && ((forall|z: int| #[trigger] rch(q.s, z) ==> q.th + z <= lb) || exists|n: int| #[trigger] erec1(ns, al, q, k, n))
}
#[verifier::opaque]
pub open spec fn erecs<T>(ns: Seq<Node<T>>, al: ISet<int>, lb: int, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, k: int) -> bool {
    p0.subset_of(pubs) && forall|q: Rec<T>| #[trigger] pubs.contains(q) ==> p0.contains(q) || erec(ns, al, lb, q, k)
}
pub proof fn erecs_keep<T>(ns: Seq<Node<T>>, al: ISet<int>, ms: Seq<Node<T>>, bl: ISet<int>, lb: int, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, k: int, k2: int)
    requires erecs(ns, al, lb, p0, pubs, k), k <= k2,
        forall|i: int| #[trigger] al.contains(i) && sd(ns[i]) < k ==> bl.contains(i) && *ms[i].state == *ns[i].state && ms[i].value == ns[i].value && fx(ms[i].flags) == fx(ns[i].flags) && fp(ms[i].flags) == fp(ns[i].flags)
    ensures erecs(ms, bl, lb, p0, pubs, k2)
{
    reveal(erecs);
    assert forall|q: Rec<T>| #[trigger] pubs.contains(q) implies p0.contains(q) || erec(ms, bl, lb, q, k2) by {
        if !p0.contains(q) && exists|n: int| #[trigger] erec1(ns, al, q, k, n) { let n = choose|n: int| #[trigger] erec1(ns, al, q, k, n); assert(erec1(ms, bl, q, k2, n)); }
    }
}
pub proof fn erecs_more<T>(ns: Seq<Node<T>>, al: ISet<int>, lb: int, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, k: int, q: Rec<T>)
    requires erecs(ns, al, lb, p0, pubs, k), erec(ns, al, lb, q, k)
    ensures erecs(ns, al, lb, p0, pubs.insert(q), k)
{ reveal(erecs); }
pub proof fn rub_max<T>(r: SP<T>, n: Node<T>)
    requires model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, dr(r) <= sd(n) <= nvars::<T>(), n.rub == isize::MAX, -big() <= r.value <= big()
    ensures rubok(n)
{
    assert forall|y: int| #[trigger] rch(*n.state, y) implies y <= n.rub by {
        reach_bound(nvars::<T>() - sd(n), *n.state, y);
        lim_mono::<T>(nvars::<T>() - sd(n), nvars::<T>() + 1); 
    }
}
pub proof fn dinv_down<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, cs: Seq<NodeId>, all: bool, on: bool, lc: int, k: int)
    requires dinv(ns, es, r, al, cs, all, on, lc, k), k < nvars::<T>()
    ensures dinv(ns, es, r, al, cs, all, on, lc, k + 1), layer(ns, al, Map::<Arc<T>, NodeId>::empty(), k + 1), newl(ns, es, k + 1)
{
    assert forall|i: int| 0 <= i < ns.len() && sd(#[trigger] ns[i]) == k + 1 implies false by { }
}
/// the drained layer
pub proof fn drained<T>(ns: Seq<Node<T>>, al: ISet<int>, nl: Map<Arc<T>, NodeId>, k: int, ks: Seq<Arc<T>>, v: Seq<NodeId>)
    requires layer(ns, al, nl, k), listing(nl, ks, v), alive_ok(ns, al)
    ensures lay_ids(ns, al, v, k)
{
    assert(v.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < j < v.len() implies v[i] != v[j] by { assert(nl.contains_key(ks[i]) && nl.contains_key(ks[j])); assert(*ks[i] == *ks[j] ==> ks[i] == ks[j]); }
    }
    assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).0 < ns.len() && al.contains(v[j].0 as int) && sd(ns[v[j].0 as int]) == k by { assert(nl.contains_key(ks[j])); }
    assert forall|i: int| 0 <= i < ns.len() && #[trigger] al.contains(i) && sd(ns[i]) == k implies v.contains(NodeId(i as usize)) by {
        let s = ns[i].state; let _ = ns[i]; assert(nl.contains_key(s));
        let j = choose|j: int| 0 <= j < ks.len() && #[trigger] ks[j] == s; assert(v[j] == nl[s]);
    }
}
/// some nodes of layer k are gone
pub proof fn restricted<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, cs: Seq<NodeId>, lc: int, k: int, v: Seq<NodeId>, cl: Seq<NodeId>)
    requires dinv(ns, es, r, al, cs, true, false, lc, k), lay_ids(ns, al, cl, k), cl.len() > 1, v.no_duplicates(), forall|x: NodeId| #[trigger] v.contains(x) ==> cl.contains(x), ns.len() <= usize::MAX
    ensures dinv(ns, es, r, relayed(ns, al, v, k), cs, true, false, lc, k), lay_ids(ns, relayed(ns, al, v, k), v, k), k > dr(r)
{
    let bl = relayed(ns, al, v, k);
    assert(nok(ns, es, r, 0));
    if k == dr(r) {
        assert(cl[0].0 == 0) by { assert(nok(ns, es, r, cl[0].0 as int)); } assert(cl[1].0 == 0) by { assert(nok(ns, es, r, cl[1].0 as int)); } assert(cl[0] == cl[1]);
    }
    assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).0 < ns.len() && bl.contains(v[j].0 as int) && sd(ns[v[j].0 as int]) == k by {
        assert(v.contains(v[j])); let q = choose|q: int| 0 <= q < cl.len() && cl[q] == v[j]; assert(cl[q].0 < ns.len());
    }
}
/// node i has a new rub, threshold, or was pruned
pub open spec fn touched<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, i: int) -> bool {
    &&& ms.len() == ns.len() && forall|j: int| 0 <= j < ns.len() && j != i ==> #[trigger] ms[j] == ns[j]
    &&& alike(ns[i], ms[i]) && ms[i].state == ns[i].state && ms[i].value_bot == ns[i].value_bot
    &&& feq(ms[i].flags, ms[i].flags, fx(ns[i].flags), fr(ns[i].flags), fm(ns[i].flags), fc(ns[i].flags), fd(ns[i].flags), fp(ms[i].flags))
    &&& ms[i].theta <= ns[i].theta && ms[i].value <= ms[i].theta && (fp(ns[i].flags) ==> fp(ms[i].flags))
}
pub proof fn cov_alike<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, lb: int)
    requires graph(ns, es, r), alike_all(ns, ms), alive_ok(ns, al), forall|u: int| 0 <= u < ns.len() ==> keepc(ns[u], #[trigger] ms[u])
    ensures forall|u: int| 0 <= u < ns.len() && #[trigger] covered(ns, es, al, lb, u) ==> covered(ms, es, al, lb, u)
{
    graph_alike(ns, ms, es, r, -1);
    assert forall|u: int| 0 <= u < ns.len() && #[trigger] covered(ns, es, al, lb, u) implies covered(ms, es, al, lb, u) by { assert(alike(ns[u], ms[u])); assert(keepc(ns[u], ms[u])); covered_grows(ns, es, ms, es, al, al, lb, u); }
}
pub proof fn touch_step<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, cs: Seq<NodeId>, all: bool, on: bool, lc: int, k: int, ms: Seq<Node<T>>, i: int, nl: Map<Arc<T>, NodeId>, cl: Seq<NodeId>, kc: int, lb: int)
    requires dinv(ns, es, r, al, cs, all, on, lc, k), touched(ns, ms, i), i == 0 || rubok(ms[i]), 0 <= i < ns.len(), layer(ns, al, nl, k), kc < k ==> newl(ns, es, k), on && sd(ns[i]) == lc ==> fp(ns[i].flags) == fp(ms[i].flags), sd(ns[i]) == kc <= k, fp(ns[i].flags) == fp(ms[i].flags) || kc == k
    ensures dinv(ms, es, r, al, cs, all, on, lc, k), layer(ms, al, nl, k), kc < k ==> newl(ms, es, k), alike_all(ns, ms),
        lay_ids(ns, al, cl, kc) && fp(ns[i].flags) == fp(ms[i].flags) ==> lay_ids(ms, al, cl, kc), forall|u: int| 0 <= u < ns.len() ==> keepc(ns[u], #[trigger] ms[u]),
        forall|u: int| 0 <= u < ns.len() && #[trigger] covered(ns, es, al, lb, u) ==> covered(ms, es, al, lb, u)
{
    assert(alike_all(ns, ms)) by { assert forall|j: int| 0 <= j < ns.len() implies alike(ns[j], #[trigger] ms[j]) by { if j != i { assert(ms[j] == ns[j]); } } }
    graph_alike(ns, ms, es, r, -1);
    assert forall|u: int| 0 <= u < ns.len() implies keepc(ns[u], #[trigger] ms[u]) by { if u != i { assert(ms[u] == ns[u]); } }
    cov_alike(ns, ms, es, r, al, lb);
    assert(sorted(ms)) by { reveal(sorted); assert forall|p: int, q: int| 0 <= p <= q < ms.len() implies sd(#[trigger] ms[p]) <= sd(#[trigger] ms[q]) by { assert(alike(ns[p], ms[p])); assert(alike(ns[q], ms[q])); } }
    if kc < k { assert forall|j: int| 0 <= j < ms.len() && sd(ms[j]) == k implies (#[trigger] ms[j]).theta == isize::MAX && !fp(ms[j].flags) && !fd(ms[j].flags) && allreal(ms, es, j) by {
        assert(alike(ns[j], ms[j])); assert(j != i); assert(ms[j] == ns[j]);
        assert forall|e: int| #[trigger] inb(ms, es, j, e) implies real(ms, j, es[e]) by { assert(inb(ns, es, j, e)); assert(eok(ns, es, j, e)); assert(alike(ns[es[e].from.0 as int], ms[es[e].from.0 as int])); }
    } }
    assert forall|j: int| 0 <= j < ms.len() implies #[trigger] nfresh(ms, r, all, j) by { assert(nfresh(ns, r, all, j)); if j != i { assert(ms[j] == ns[j]); } }
    assert forall|j: int| 0 <= j < ms.len() implies sd(#[trigger] ms[j]) <= k by { assert(alike(ns[j], ms[j])); let _ = ns[j]; }
    assert forall|e: int| 0 <= e < es.len() implies al.contains((#[trigger] es[e]).from.0 as int) && es[e].from.0 < ms.len() && sd(ms[es[e].from.0 as int]) < k && !fp(ms[es[e].from.0 as int].flags) by { let g = es[e].from.0 as int; assert(alike(ns[g], ms[g])); if g != i { assert(ms[g] == ns[g]); } }
    assert forall|j: int| 0 <= j < cs.len() && on implies (#[trigger] cs[j]).0 < ms.len() && sd(ms[cs[j].0 as int]) == lc && fx(ms[cs[j].0 as int].flags) && !fp(ms[cs[j].0 as int].flags) && fc(ms[cs[j].0 as int].flags) by { let g = cs[j].0 as int; assert(alike(ns[g], ms[g])); }
    assert forall|j: int| #[trigger] al.contains(j) && on && sd(ms[j]) == lc && !fp(ms[j].flags) implies cs.contains(NodeId(j as usize)) by { assert(alike(ns[j], ms[j])); }
    assert forall|j: int| 0 <= j < ms.len() implies fc((#[trigger] ms[j]).flags) == fc(ns[j].flags) && sd(ms[j]) == sd(ns[j]) by { assert(alike(ns[j], ms[j])); if j != i { assert(ms[j] == ns[j]); } }
    assert forall|s: Arc<T>| #[trigger] nl.contains_key(s) implies nl[s].0 < ms.len() && *ms[nl[s].0 as int].state == *s && sdepth(*s) == k && al.contains(nl[s].0 as int) by { assert(alike(ns[nl[s].0 as int], ms[nl[s].0 as int])); }
    assert forall|j: int| 0 <= j < ms.len() && sd(#[trigger] ms[j]) == k implies nl.contains_key(ms[j].state) && nl[ms[j].state].0 == j by { let _ = ns[j]; assert(alike(ns[j], ms[j])); if j != i { assert(ms[j] == ns[j]); } }
    if lay_ids(ns, al, cl, kc) && fp(ns[i].flags) == fp(ms[i].flags) {
        assert forall|j: int| 0 <= j < cl.len() implies (#[trigger] cl[j]).0 < ms.len() && al.contains(cl[j].0 as int) && sd(ms[cl[j].0 as int]) == kc by { assert(alike(ns[cl[j].0 as int], ms[cl[j].0 as int])); }
        assert forall|j: int| 0 <= j < ms.len() && #[trigger] al.contains(j) && sd(ms[j]) == kc && !fp(ms[j].flags) implies cl.contains(NodeId(j as usize)) by { assert(alike(ns[j], ms[j])); if j != i { assert(ms[j] == ns[j]); } }
    }
}
/// decision d has been followed from u
pub open spec fn went<T>(ns: Seq<Node<T>>, es: Seq<Edge>, al: ISet<int>, u: int, d: Decision) -> bool {
    exists|w: int, e: int| #[trigger] arc(ns, es, al, u, w, e) && *ns[w].state == trans(*ns[u].state, d) && es[e].cost == tcost(*ns[u].state, d)
}
pub proof fn went_grows<T>(ns: Seq<Node<T>>, es: Seq<Edge>, ms: Seq<Node<T>>, fs: Seq<Edge>, al: ISet<int>, bl: ISet<int>, u: int, d: Decision)
    requires went(ns, es, al, u, d), grows(ns, es, ms, fs), 0 <= u < ns.len(), forall|w: int| #[trigger] al.contains(w) ==> bl.contains(w), alive_ok(ns, al)
    ensures went(ms, fs, bl, u, d)
{
    let (w, e) = choose|w: int, e: int| #[trigger] arc(ns, es, al, u, w, e) && *ns[w].state == trans(*ns[u].state, d) && es[e].cost == tcost(*ns[u].state, d);
    inl_bound(es, hd(ns[w].inbound), e);
    assert(inb(ms, fs, w, e)); assert(fs[e] == es[e]); assert(*ms[w].state == *ns[w].state); assert(*ms[u].state == *ns[u].state);
    assert(arc(ms, fs, bl, u, w, e));
}
/// every decision followed
pub proof fn went_all<T>(ns: Seq<Node<T>>, es: Seq<Edge>, al: ISet<int>, lb: int, u: int)
    requires 0 <= u < ns.len(), 0 <= sd(ns[u]) < nvars::<T>(), model_ok::<T>(), forall|d: Decision| #[trigger] indom(*ns[u].state, d) ==> went(ns, es, al, u, d)
    ensures covered(ns, es, al, lb, u)
{
    let s = *ns[u].state;
    assert forall|y: int| #[trigger] rch(s, y) implies goes(ns, es, al, u, y) by {
        let q = nvars::<T>() - sdepth(s);
        let d = choose|d: Decision| #[trigger] indom(s, d) && reach(q - 1, trans(s, d), y - tcost(s, d));
        assert(went(ns, es, al, u, d));
        let (w, e) = choose|w: int, e: int| #[trigger] arc(ns, es, al, u, w, e) && *ns[w].state == trans(s, d) && es[e].cost == tcost(s, d);
        assert(rch(*ns[w].state, y - es[e].cost));
        assert(arc(ns, es, al, u, w, e));
    }
}
/// the rough upper bound rules the node out
pub proof fn ruled_out<T>(ns: Seq<Node<T>>, es: Seq<Edge>, al: ISet<int>, lb: int, u: int, rub: int)
    requires 0 <= u < ns.len(), forall|y: int| #[trigger] rch(*ns[u].state, y) ==> y <= rub, sat(rub + ns[u].value) <= lb, isize::MIN <= lb < isize::MAX, isize::MIN <= rub <= isize::MAX, -big() <= ns[u].value <= big(), ns[u].theta == sat(lb - rub)
    ensures covered(ns, es, al, lb, u), ns[u].value <= ns[u].theta, forall|y: int| #[trigger] rch(*ns[u].state, y) ==> ns[u].theta + y <= lb
{
}
pub proof fn seen_bound(seen: Set<int>, n: int)
    requires seen.finite(), n >= 0, forall|i: int| #[trigger] seen.contains(i) ==> 0 <= i < n
    ensures seen.len() <= n
{
    let u = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    assert(seen.subset_of(u)) by { assert forall|i: int| #[trigger] seen.contains(i) implies u.contains(i) by {} }
    vstd::set_lib::lemma_len_subset(seen, u);
}
pub open spec fn kid<T>(n: Node<T>, d: Decision) -> Arc<T> { Arc::new(trans(*n.state, d)) }
/// nodes already expanded
pub open spec fn seen_ok<T>(ns: Seq<Node<T>>, seen: Set<int>, k: int, cl: Seq<NodeId>, n: int) -> bool {
    seen.finite() && forall|i: int| #[trigger] seen.contains(i) ==> 0 <= i < ns.len() && (sd(ns[i]) < k || exists|j: int| 0 <= j < n && (#[trigger] cl[j]).0 == i)
}
pub open spec fn cov_upto<T>(ns: Seq<Node<T>>, es: Seq<Edge>, al: ISet<int>, lb: int, k: int, cl: Seq<NodeId>, n: int) -> bool {
    all_cov(ns, es, al, lb, k) && forall|j: int| 0 <= j < n ==> covered(ns, es, al, lb, (#[trigger] cl[j]).0 as int)
}
