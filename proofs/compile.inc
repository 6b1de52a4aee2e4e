// ---------------------------------------------------------------- the invariant of the compilation
pub open spec fn rubok<T>(n: Node<T>) -> bool { forall|y: int| #[trigger] rch(*n.state, y) ==> y <= n.rub }
pub open spec fn nfresh<T>(ns: Seq<Node<T>>, r: SP<T>, all: bool, i: int) -> bool {
    &&& (all || sd(ns[i]) <= dr(r) + 1) ==> fx(ns[i].flags)
    &&& !fm(ns[i].flags) && ns[i].value_bot == isize::MIN
    &&& i > 0 ==> rubok(ns[i])
}
/// last exact layer lc once something was merged (on), no cutset before
pub open spec fn cuts<T>(ns: Seq<Node<T>>, r: SP<T>, al: ISet<int>, cs: Seq<NodeId>, on: bool, lc: int, k: int) -> bool {
    if on {
        &&& dr(r) < lc < k
        &&& forall|j: int| 0 <= j < cs.len() ==> (#[trigger] cs[j]).0 < ns.len() && sd(ns[cs[j].0 as int]) == lc && fx(ns[cs[j].0 as int].flags) && al.contains(cs[j].0 as int)
        &&& forall|i: int| #[trigger] al.contains(i) && sd(ns[i]) == lc ==> cs.contains(NodeId(i as usize))
        &&& forall|i: int| 0 <= i < ns.len() && fc((#[trigger] ns[i]).flags) ==> sd(ns[i]) == lc
    } else { cs.len() == 0 && forall|i: int| 0 <= i < ns.len() ==> !fc((#[trigger] ns[i]).flags) }
}
/// all layers above depth k are there, layer k may be growing
pub open spec fn dinv<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, cs: Seq<NodeId>, all: bool, on: bool, lc: int, k: int) -> bool {
    &&& graph(ns, es, r) && alive_ok(ns, al) && froms(ns, es, al, k) && dr(r) <= k <= nvars::<T>()
    &&& forall|i: int| 0 <= i < ns.len() ==> sd(#[trigger] ns[i]) <= k
    &&& forall|i: int| 0 <= i < ns.len() ==> #[trigger] nfresh(ns, r, all, i)
    &&& cuts(ns, r, al, cs, on, lc, k)
}
/// the map nl holds exactly the alive nodes of depth k
pub open spec fn layer<T>(ns: Seq<Node<T>>, al: ISet<int>, nl: Map<Arc<T>, NodeId>, k: int) -> bool {
    &&& forall|s: Arc<T>| #[trigger] nl.contains_key(s) ==> nl[s].0 < ns.len() && *ns[nl[s].0 as int].state == *s && sdepth(*s) == k && al.contains(nl[s].0 as int)
    &&& forall|i: int| 0 <= i < ns.len() && sd(#[trigger] ns[i]) == k ==> nl.contains_key(ns[i].state) && nl[ns[i].state].0 == i
}
pub proof fn rub_max<T>(r: SP<T>, n: Node<T>)
    requires model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, dr(r) <= sd(n) <= nvars::<T>(), n.rub == isize::MAX, -big() <= r.value <= big()
    ensures rubok(n)
{
    assert forall|y: int| #[trigger] rch(*n.state, y) implies y <= n.rub by {
        reach_bound(nvars::<T>() - sd(n), *n.state, y);
        lim_mono::<T>(nvars::<T>() - sd(n), nvars::<T>() + 1); 
    }
}
pub proof fn dinv_down<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, cs: Seq<NodeId>, all: bool, on: bool, lc: int, k: int)
    requires dinv(ns, es, r, al, cs, all, on, lc, k), k < nvars::<T>()
    ensures dinv(ns, es, r, al, cs, all, on, lc, k + 1), layer(ns, al, Map::<Arc<T>, NodeId>::empty(), k + 1)
{
    assert forall|i: int| 0 <= i < ns.len() && sd(#[trigger] ns[i]) == k + 1 implies false by { }
}
/// the drained layer
pub proof fn drained<T>(ns: Seq<Node<T>>, al: ISet<int>, nl: Map<Arc<T>, NodeId>, k: int, ks: Seq<Arc<T>>, v: Seq<NodeId>)
    requires layer(ns, al, nl, k), listing(nl, ks, v), alive_ok(ns, al)
    ensures lay_ids(ns, al, v, k)
{
    assert(v.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < j < v.len() implies v[i] != v[j] by { assert(nl.contains_key(ks[i]) && nl.contains_key(ks[j])); assert(*ks[i] == *ks[j] ==> ks[i] == ks[j]); }
    }
    assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).0 < ns.len() && al.contains(v[j].0 as int) && sd(ns[v[j].0 as int]) == k by { assert(nl.contains_key(ks[j])); }
    assert forall|i: int| 0 <= i < ns.len() && #[trigger] al.contains(i) && sd(ns[i]) == k implies v.contains(NodeId(i as usize)) by {
        let s = ns[i].state; let _ = ns[i]; assert(nl.contains_key(s));
        let j = choose|j: int| 0 <= j < ks.len() && #[trigger] ks[j] == s; assert(v[j] == nl[s]);
    }
}
/// some nodes of layer k are gone
pub proof fn restricted<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, cs: Seq<NodeId>, lc: int, k: int, v: Seq<NodeId>, cl: Seq<NodeId>)
    requires dinv(ns, es, r, al, cs, true, false, lc, k), lay_ids(ns, al, cl, k), cl.len() > 1, v.no_duplicates(), forall|x: NodeId| #[trigger] v.contains(x) ==> cl.contains(x), ns.len() <= usize::MAX
    ensures dinv(ns, es, r, relayed(ns, al, v, k), cs, true, false, lc, k), lay_ids(ns, relayed(ns, al, v, k), v, k), k > dr(r)
{
    let bl = relayed(ns, al, v, k);
    assert(nok(ns, es, r, 0));
    if k == dr(r) {
        assert(cl[0].0 == 0) by { assert(nok(ns, es, r, cl[0].0 as int)); } assert(cl[1].0 == 0) by { assert(nok(ns, es, r, cl[1].0 as int)); } assert(cl[0] == cl[1]);
    }
    assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).0 < ns.len() && bl.contains(v[j].0 as int) && sd(ns[v[j].0 as int]) == k by {
        assert(v.contains(v[j])); let q = choose|q: int| 0 <= q < cl.len() && cl[q] == v[j]; assert(cl[q].0 < ns.len());
    }
}
/// rub of node i has been refreshed
pub open spec fn rubbed<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, i: int) -> bool {
    &&& ms.len() == ns.len() && forall|j: int| 0 <= j < ns.len() && j != i ==> #[trigger] ms[j] == ns[j]
    &&& alike(ns[i], ms[i]) && ms[i].state == ns[i].state && ms[i].flags == ns[i].flags && ms[i].value_bot == ns[i].value_bot
}
pub proof fn cov_alike<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, lb: int)
    requires graph(ns, es, r), alike_all(ns, ms), alive_ok(ns, al)
    ensures forall|u: int| 0 <= u < ns.len() && #[trigger] covered(ns, es, al, lb, u) ==> covered(ms, es, al, lb, u)
{
    graph_alike(ns, ms, es, r, -1);
    assert forall|u: int| 0 <= u < ns.len() && #[trigger] covered(ns, es, al, lb, u) implies covered(ms, es, al, lb, u) by { assert(alike(ns[u], ms[u])); covered_grows(ns, es, ms, es, al, al, lb, u); }
}
pub proof fn rub_step<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, cs: Seq<NodeId>, all: bool, on: bool, lc: int, k: int, ms: Seq<Node<T>>, i: int, nl: Map<Arc<T>, NodeId>, cl: Seq<NodeId>, kc: int, lb: int)
    requires dinv(ns, es, r, al, cs, all, on, lc, k), rubbed(ns, ms, i), rubok(ms[i]), 0 <= i < ns.len(), layer(ns, al, nl, k), lay_ids(ns, al, cl, kc)
    ensures dinv(ms, es, r, al, cs, all, on, lc, k), layer(ms, al, nl, k), lay_ids(ms, al, cl, kc), alike_all(ns, ms),
        forall|u: int| 0 <= u < ns.len() && #[trigger] covered(ns, es, al, lb, u) ==> covered(ms, es, al, lb, u)
{
    assert(alike_all(ns, ms)) by { assert forall|j: int| 0 <= j < ns.len() implies alike(ns[j], #[trigger] ms[j]) by { if j != i { assert(ms[j] == ns[j]); } } }
    graph_alike(ns, ms, es, r, -1);
    cov_alike(ns, ms, es, r, al, lb);
    assert forall|j: int| 0 <= j < ms.len() implies #[trigger] nfresh(ms, r, all, j) by { assert(nfresh(ns, r, all, j)); if j != i { assert(ms[j] == ns[j]); } }
    assert forall|j: int| 0 <= j < ms.len() implies sd(#[trigger] ms[j]) <= k by { assert(alike(ns[j], ms[j])); let _ = ns[j]; }
    assert forall|e: int| 0 <= e < es.len() implies al.contains((#[trigger] es[e]).from.0 as int) && es[e].from.0 < ms.len() && sd(ms[es[e].from.0 as int]) < k by { let g = es[e].from.0 as int; assert(alike(ns[g], ms[g])); }
    assert forall|j: int| 0 <= j < cs.len() && on implies (#[trigger] cs[j]).0 < ms.len() && sd(ms[cs[j].0 as int]) == lc && fx(ms[cs[j].0 as int].flags) by { let g = cs[j].0 as int; assert(alike(ns[g], ms[g])); }
    assert forall|j: int| #[trigger] al.contains(j) && on && sd(ms[j]) == lc implies cs.contains(NodeId(j as usize)) by { assert(alike(ns[j], ms[j])); }
    assert forall|j: int| 0 <= j < ms.len() implies fc((#[trigger] ms[j]).flags) == fc(ns[j].flags) && sd(ms[j]) == sd(ns[j]) by { assert(alike(ns[j], ms[j])); if j != i { assert(ms[j] == ns[j]); } }
    assert forall|s: Arc<T>| #[trigger] nl.contains_key(s) implies nl[s].0 < ms.len() && *ms[nl[s].0 as int].state == *s && sdepth(*s) == k && al.contains(nl[s].0 as int) by { assert(alike(ns[nl[s].0 as int], ms[nl[s].0 as int])); }
    assert forall|j: int| 0 <= j < ms.len() && sd(#[trigger] ms[j]) == k implies nl.contains_key(ms[j].state) && nl[ms[j].state].0 == j by { let _ = ns[j]; assert(alike(ns[j], ms[j])); if j != i { assert(ms[j] == ns[j]); } }
    assert forall|j: int| 0 <= j < cl.len() implies (#[trigger] cl[j]).0 < ms.len() && al.contains(cl[j].0 as int) && sd(ms[cl[j].0 as int]) == kc by { assert(alike(ns[cl[j].0 as int], ms[cl[j].0 as int])); }
    assert forall|j: int| 0 <= j < ms.len() && #[trigger] al.contains(j) && sd(ms[j]) == kc implies cl.contains(NodeId(j as usize)) by { assert(alike(ns[j], ms[j])); }
}
/// decision d has been followed from u
pub open spec fn went<T>(ns: Seq<Node<T>>, es: Seq<Edge>, al: ISet<int>, u: int, d: Decision) -> bool {
    exists|w: int, e: int| #[trigger] arc(ns, es, al, u, w, e) && *ns[w].state == trans(*ns[u].state, d) && es[e].cost == tcost(*ns[u].state, d)
}
pub proof fn went_grows<T>(ns: Seq<Node<T>>, es: Seq<Edge>, ms: Seq<Node<T>>, fs: Seq<Edge>, al: ISet<int>, bl: ISet<int>, u: int, d: Decision)
    requires went(ns, es, al, u, d), grows(ns, es, ms, fs), 0 <= u < ns.len(), forall|w: int| #[trigger] al.contains(w) ==> bl.contains(w), alive_ok(ns, al)
    ensures went(ms, fs, bl, u, d)
{
    let (w, e) = choose|w: int, e: int| #[trigger] arc(ns, es, al, u, w, e) && *ns[w].state == trans(*ns[u].state, d) && es[e].cost == tcost(*ns[u].state, d);
    inl_bound(es, hd(ns[w].inbound), e);
    assert(inb(ms, fs, w, e)); assert(fs[e] == es[e]); assert(*ms[w].state == *ns[w].state); assert(*ms[u].state == *ns[u].state);
    assert(arc(ms, fs, bl, u, w, e));
}
/// every decision followed
pub proof fn went_all<T>(ns: Seq<Node<T>>, es: Seq<Edge>, al: ISet<int>, lb: int, u: int)
    requires 0 <= u < ns.len(), 0 <= sd(ns[u]) < nvars::<T>(), model_ok::<T>(), forall|d: Decision| #[trigger] indom(*ns[u].state, d) ==> went(ns, es, al, u, d)
    ensures covered(ns, es, al, lb, u)
{
    let s = *ns[u].state;
    assert forall|y: int| #[trigger] rch(s, y) && ns[u].value + y > lb implies goes(ns, es, al, u, y) by {
        let q = nvars::<T>() - sdepth(s);
        let d = choose|d: Decision| #[trigger] indom(s, d) && reach(q - 1, trans(s, d), y - tcost(s, d));
        assert(went(ns, es, al, u, d));
        let (w, e) = choose|w: int, e: int| #[trigger] arc(ns, es, al, u, w, e) && *ns[w].state == trans(s, d) && es[e].cost == tcost(s, d);
        assert(rch(*ns[w].state, y - es[e].cost));
        assert(arc(ns, es, al, u, w, e));
    }
}
/// the rough upper bound rules the node out
pub proof fn ruled_out<T>(ns: Seq<Node<T>>, es: Seq<Edge>, al: ISet<int>, lb: int, u: int)
    requires rubok(ns[u]), sat(ns[u].rub + ns[u].value) <= lb, isize::MIN <= lb <= isize::MAX, -big() <= ns[u].value <= big(), model_ok::<T>(), lim::<T>(nvars::<T>() - sd(ns[u])) <= big()
    ensures covered(ns, es, al, lb, u)
{
    assert forall|y: int| #[trigger] rch(*ns[u].state, y) && ns[u].value + y > lb implies goes(ns, es, al, u, y) by { reach_bound(nvars::<T>() - sd(ns[u]), *ns[u].state, y); }
}
pub proof fn seen_bound(seen: Set<int>, n: int)
    requires seen.finite(), n >= 0, forall|i: int| #[trigger] seen.contains(i) ==> 0 <= i < n
    ensures seen.len() <= n
{
    let u = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    assert(seen.subset_of(u)) by { assert forall|i: int| #[trigger] seen.contains(i) implies u.contains(i) by {} }
    vstd::set_lib::lemma_len_subset(seen, u);
}
/// what a compilation establishes
pub open spec fn comp_ok<T>(ns: Seq<Node<T>>, es: Seq<Edge>, cs: Seq<NodeId>, best: Option<NodeId>, pa: Seq<Decision>, exact: bool, r: SP<T>, ty: CompilationType, lb: int) -> bool {
    let b = (best->0).0 as int;
    &&& best is Some ==> graph(ns, es, r) && pa =~= r.path && b < ns.len() && sd(ns[b]) == nvars::<T>()
    &&& best is Some && (exact || ty != CompilationType::Relaxed) ==> rpath(ns, es, sd(ns[b]) - dr(r), b)
    &&& exact || ty != CompilationType::Restricted ==> forall|y: int| #[trigger] rch(*r.state, y) && r.value + y > lb ==> best is Some && ns[b].value >= r.value + y
    &&& ty == CompilationType::Exact ==> exact
    &&& ty == CompilationType::Relaxed && !exact ==> cut_ok(ns, es, cs, best, pa, r, lb)
}
/// no layer left, nothing beats lb
pub proof fn compiled_empty<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, cs: Seq<NodeId>, all: bool, on: bool, lc: int, k: int, lb: int)
    requires dinv(ns, es, r, al, cs, all, on, lc, k), all_cov(ns, es, al, lb, k), forall|i: int| #[trigger] al.contains(i) ==> sd(ns[i]) != k
    ensures forall|y: int| #[trigger] rch(*r.state, y) ==> r.value + y <= lb
{
    assert(nok(ns, es, r, 0));
    assert forall|y: int| #[trigger] rch(*r.state, y) implies r.value + y <= lb by {
        if r.value + y > lb {
            term_lemma(ns, es, r, al, lb, k, 0, y);
            let t = choose|t: int| #[trigger] al.contains(t) && sd(ns[t]) == nvars::<T>() && ns[t].value >= r.value + y;
            assert(sd(ns[t]) <= k);
        }
    }
}
/// the best terminal node is worth at least any improving completion
pub proof fn compiled_best<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, cs: Seq<NodeId>, all: bool, on: bool, lc: int, k: int, lb: int, b: int)
    requires dinv(ns, es, r, al, cs, all, on, lc, k), all_cov(ns, es, al, lb, k), k == nvars::<T>(), forall|i: int| #[trigger] al.contains(i) && sd(ns[i]) == k ==> ns[b].value >= ns[i].value
    ensures forall|u: int, y: int| #![trigger al.contains(u), rch(*ns[u].state, y)] al.contains(u) && rch(*ns[u].state, y) && ns[u].value + y > lb ==> ns[b].value >= ns[u].value + y,
        forall|y: int| #[trigger] rch(*r.state, y) && r.value + y > lb ==> ns[b].value >= r.value + y
{
    assert(nok(ns, es, r, 0)); assert(al.contains(0));
    assert forall|u: int, y: int| #![trigger al.contains(u), rch(*ns[u].state, y)] al.contains(u) && rch(*ns[u].state, y) && ns[u].value + y > lb implies ns[b].value >= ns[u].value + y by {
        term_lemma(ns, es, r, al, lb, k, u, y);
        let t = choose|t: int| #[trigger] al.contains(t) && sd(ns[t]) == nvars::<T>() && ns[t].value >= ns[u].value + y;
        assert(al.contains(t));
    }
    assert forall|y: int| #[trigger] rch(*r.state, y) && r.value + y > lb implies ns[b].value >= r.value + y by { assert(rch(*ns[0].state, y)); }
}
/// an inexact relaxed diagram with its local bounds: the cutset is sound and complete
/// (al2: nodes of the cutset are alive)
pub proof fn compiled_cut<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, cs0: Seq<NodeId>, cs: Seq<NodeId>, all: bool, fro: bool, lc: int, k: int, lb: int, best: Option<NodeId>, pa: Seq<Decision>)
    requires
        dinv(ns, es, r, al, cs0, all, !fro, lc, k), all_cov(ns, es, al, lb, k), dr(r) >= 0, model_ok::<T>(), lb >= isize::MIN, pa =~= r.path, k > dr(r), ns.len() <= usize::MAX, small::<T>(r.value),
        best is Some, k == nvars::<T>(), (best->0).0 < ns.len(), forall|i: int| #[trigger] al.contains(i) && sd(ns[i]) == k ==> ns[(best->0).0 as int].value >= ns[i].value,
        locb_base(ns, ms, es, cs0, cs, fro, k), done(ms, es, -1, fro),
        forall|i: int| #[trigger] al.contains(i) && sd(ms[i]) == nvars::<T>() ==> fm(ms[i].flags) && ms[i].value_bot >= 0 && (fro && fx(ms[i].flags) ==> fc(ms[i].flags)),
        !fro ==> forall|j: int| 0 <= j < cs.len() ==> al.contains((#[trigger] cs[j]).0 as int),
        fro ==> forall|i: int| 0 <= i < ns.len() && sd(#[trigger] ns[i]) == k && fx(ns[i].flags) ==> al.contains(i),
    ensures cut_ok(ms, es, cs, best, pa, r, lb)
{
    let kc = if fro { dr(r) } else { lc };
    { let b = (best->0).0 as int; assert(nok(ns, es, r, b)); vok_small(ns, r, b); assert(alike(ns[b], ms[b])); }
    graph_alike(ns, ms, es, r, -1);
    cov_alike(ns, ms, es, r, al, lb);
    assert forall|u: int| #[trigger] al.contains(u) && sd(ms[u]) < k implies covered(ms, es, al, lb, u) by { assert(alike(ns[u], ms[u])); assert(covered(ns, es, al, lb, u)); }
    assert(all_cov(ms, es, al, lb, k));
    assert(alive_ok(ms, al));
    assert forall|i: int| 0 <= i < ms.len() implies sd(#[trigger] ms[i]) <= k && sd(ms[i]) == sd(ns[i]) && fx(ms[i].flags) == fx(ns[i].flags) && ms[i].value == ns[i].value by { assert(alike(ns[i], ms[i])); }
    assert forall|i: int| 0 <= i < ms.len() && stops(#[trigger] ms[i], fro) implies sd(ms[i]) <= kc by { assert(alike(ns[i], ms[i])); assert(fc(ns[i].flags)); }
    compiled_best(ns, es, r, al, cs0, all, !fro, lc, k, lb, (best->0).0 as int);
    assert forall|j: int| 0 <= j < cs.len() implies (#[trigger] cs[j]).0 < ms.len() && fx(ms[cs[j].0 as int].flags) && dr(r) < sd(ms[cs[j].0 as int]) && kc <= sd(ms[cs[j].0 as int]) && al.contains(cs[j].0 as int) by {
        let i = cs[j].0 as int;
        if fro {
            assert(okcut(ns, es, i, k));
            if sd(ns[i]) != k {
                let (w, e) = choose|w: int, e: int| #[trigger] inb(ns, es, w, e) && es[e].from.0 == i && !fx(ns[w].flags);
                assert(eok(ns, es, w, e)); assert(nfresh(ns, r, all, w));
                assert(al.contains(es[e].from.0 as int));
            }
        } else { let _ = cs0[j]; }
        assert(alike(ns[i], ms[i]));
    }
    assert forall|j: int, y: int| 0 <= j < cs.len() && #[trigger] rch(*ms[(#[trigger] cs[j]).0 as int].state, y) && ms[cs[j].0 as int].value + y > lb implies ({
            let n = ms[cs[j].0 as int]; fm(n.flags) && y <= n.value_bot && y <= n.rub && n.value + y <= ms[(best->0).0 as int].value }) by {
        let i = cs[j].0 as int;
        mark_lemma(ms, es, r, al, lb, k, fro, kc, i, y);
        assert(nfresh(ns, r, all, i)); assert(alike(ns[i], ms[i])); assert(nok(ns, es, r, 0));
        assert(rch(*ns[i].state, y)); assert(al.contains(i)); let _ = ms[i];
    }
    assert(nok(ms, es, r, 0)); assert(al.contains(0)); assert(nfresh(ns, r, all, 0)); assert(alike(ns[0], ms[0])); 
    assert forall|y: int| #[trigger] rch(*r.state, y) && r.value + y > lb implies cut_has(ms, cs, r.value + y) by {
        if fro { fro_lemma(ms, es, r, al, lb, k, cs, 0, y); }
        else {
            assert forall|i: int| #[trigger] al.contains(i) && sd(ms[i]) == kc implies cs.contains(NodeId(i as usize)) by { assert(alike(ns[i], ms[i])); }
            lel_lemma(ms, es, r, al, lb, k, kc, cs, 0, y);
        }
    }
}
pub open spec fn kid<T>(n: Node<T>, d: Decision) -> Arc<T> { Arc::new(trans(*n.state, d)) }
/// nodes already expanded
pub open spec fn seen_ok<T>(ns: Seq<Node<T>>, seen: Set<int>, k: int, cl: Seq<NodeId>, n: int) -> bool {
    seen.finite() && forall|i: int| #[trigger] seen.contains(i) ==> 0 <= i < ns.len() && (sd(ns[i]) < k || exists|j: int| 0 <= j < n && (#[trigger] cl[j]).0 == i)
}
pub open spec fn cov_upto<T>(ns: Seq<Node<T>>, es: Seq<Edge>, al: ISet<int>, lb: int, k: int, cl: Seq<NodeId>, n: int) -> bool {
    all_cov(ns, es, al, lb, k) && forall|j: int| 0 <= j < n ==> covered(ns, es, al, lb, (#[trigger] cl[j]).0 as int)
}
