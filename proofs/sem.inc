// ---------------------------------------------------------------- from the graph to the sub-problem
pub open spec fn all_cov<T>(ns: Seq<Node<T>>, es: Seq<Edge>, al: ISet<int>, lb: int, k: int) -> bool { forall|u: int| #[trigger] al.contains(u) && sd(ns[u]) < k ==> covered(ns, es, al, lb, u) }
/// layer k is the last one: terminal, or empty
pub open spec fn last<T>(ns: Seq<Node<T>>, al: ISet<int>, k: int) -> bool { k == nvars::<T>() || forall|i: int| #[trigger] al.contains(i) ==> sd(ns[i]) != k }
pub open spec fn topped<T>(ns: Seq<Node<T>>, al: ISet<int>, x: int) -> bool { exists|t: int| #[trigger] al.contains(t) && sd(ns[t]) == nvars::<T>() && ns[t].value >= x }

/// an improving completion of an alive node ends in a terminal node worth at least as much
pub proof fn term_lemma<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, lb: int, k: int, u: int, y: int)
    requires graph(ns, es, r), alive_ok(ns, al), all_cov(ns, es, al, lb, k), last(ns, al, k), k <= nvars::<T>(), forall|i: int| 0 <= i < ns.len() ==> sd(#[trigger] ns[i]) <= k,
        al.contains(u), rch(*ns[u].state, y), ns[u].value + y > lb
    ensures topped(ns, al, ns[u].value + y)
    decreases k - sd(ns[u])
{
    assert(0 <= u < ns.len()); assert(nok(ns, es, r, u)); assert(sd(ns[u]) <= k);
    if sd(ns[u]) < k {
        assert(covered(ns, es, al, lb, u)); assert(goes(ns, es, al, u, y));
        let (w, e) = choose|w: int, e: int| #[trigger] arc(ns, es, al, u, w, e) && rch(*ns[w].state, y - es[e].cost);
        assert(inb(ns, es, w, e)); assert(eok(ns, es, w, e));
        term_lemma(ns, es, r, al, lb, k, w, y - es[e].cost);
        let t = choose|t: int| #[trigger] al.contains(t) && sd(ns[t]) == nvars::<T>() && ns[t].value >= ns[w].value + y - es[e].cost;
        assert(al.contains(t));
    } else { assert(y <= 0); }
}
/// an improving completion of an alive node is accounted for by the node's mark and local bound
/// (kc: depth from which on no node stops the propagation)
pub proof fn mark_lemma<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, lb: int, k: int, fro: bool, kc: int, u: int, y: int)
    requires graph(ns, es, r), alive_ok(ns, al), all_cov(ns, es, al, lb, k), last(ns, al, k), k <= nvars::<T>(), forall|i: int| 0 <= i < ns.len() ==> sd(#[trigger] ns[i]) <= k,
        done(ns, es, -1, fro), forall|i: int| 0 <= i < ns.len() && stops(#[trigger] ns[i], fro) ==> sd(ns[i]) <= kc, dr(r) >= 0,
        forall|i: int| #[trigger] al.contains(i) && sd(ns[i]) == nvars::<T>() ==> fm(ns[i].flags) && ns[i].value_bot >= 0,
        al.contains(u), rch(*ns[u].state, y), ns[u].value + y > lb, sd(ns[u]) >= kc
    ensures fm(ns[u].flags), ns[u].value_bot >= y
    decreases k - sd(ns[u])
{
    assert(0 <= u < ns.len()); assert(nok(ns, es, r, u)); assert(sd(ns[u]) <= k);
    if sd(ns[u]) < k {
        assert(covered(ns, es, al, lb, u)); assert(goes(ns, es, al, u, y));
        let (w, e) = choose|w: int, e: int| #[trigger] arc(ns, es, al, u, w, e) && rch(*ns[w].state, y - es[e].cost);
        assert(inb(ns, es, w, e)); assert(eok(ns, es, w, e)); assert(nok(ns, es, r, w));
        mark_lemma(ns, es, r, al, lb, k, fro, kc, w, y - es[e].cost);
        assert(!stops(ns[w], fro)); assert(closed(ns, es, fro, w)); assert(closed1(ns, es, fro, w, e));
    } else { assert(y <= 0); }
}
/// c accounts for a completion worth x: c is there, and some completion of c reaches x
pub open spec fn accounts<T>(ns: Seq<Node<T>>, c: int, x: int) -> bool { exists|z: int| #[trigger] rch(*ns[c].state, z) && ns[c].value + z >= x }
pub open spec fn cut_has<T>(ns: Seq<Node<T>>, cs: Seq<NodeId>, x: int) -> bool { exists|j: int| 0 <= j < cs.len() && accounts(ns, (#[trigger] cs[j]).0 as int, x) }
/// last exact layer: the completion goes through a node of depth kc
pub proof fn lel_lemma<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, lb: int, k: int, kc: int, cs: Seq<NodeId>, u: int, y: int)
    requires graph(ns, es, r), alive_ok(ns, al), all_cov(ns, es, al, lb, k), kc < k,
        forall|i: int| #[trigger] al.contains(i) && sd(ns[i]) == kc ==> cs.contains(NodeId(i as usize)), ns.len() <= usize::MAX,
        al.contains(u), rch(*ns[u].state, y), ns[u].value + y > lb, sd(ns[u]) <= kc
    ensures cut_has(ns, cs, ns[u].value + y)
    decreases kc - sd(ns[u])
{
    assert(0 <= u < ns.len()); assert(nok(ns, es, r, u));
    if sd(ns[u]) < kc {
        assert(covered(ns, es, al, lb, u)); assert(goes(ns, es, al, u, y));
        let (w, e) = choose|w: int, e: int| #[trigger] arc(ns, es, al, u, w, e) && rch(*ns[w].state, y - es[e].cost);
        assert(inb(ns, es, w, e)); assert(eok(ns, es, w, e));
        lel_lemma(ns, es, r, al, lb, k, kc, cs, w, y - es[e].cost);
        let j = choose|j: int| 0 <= j < cs.len() && accounts(ns, (#[trigger] cs[j]).0 as int, ns[w].value + y - es[e].cost);
        let c = cs[j].0 as int;
        let z = choose|z: int| #[trigger] rch(*ns[c].state, z) && ns[c].value + z >= ns[w].value + y - es[e].cost;
        assert(rch(*ns[c].state, z)); assert(accounts(ns, c, ns[u].value + y));
    } else {
        let j = choose|j: int| 0 <= j < cs.len() && cs[j] == NodeId(u as usize);
        assert(accounts(ns, cs[j].0 as int, ns[u].value + y));
    }
}
/// frontier: the completion leaves the exact part of the diagram through the cutset
pub proof fn fro_lemma<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, lb: int, k: int, cs: Seq<NodeId>, u: int, y: int)
    requires graph(ns, es, r), alive_ok(ns, al), all_cov(ns, es, al, lb, k), last(ns, al, k), k <= nvars::<T>(), forall|i: int| 0 <= i < ns.len() ==> sd(#[trigger] ns[i]) <= k,
        done(ns, es, -1, true), dr(r) >= 0,
        forall|i: int| #[trigger] al.contains(i) && sd(ns[i]) == nvars::<T>() ==> fm(ns[i].flags) && ns[i].value_bot >= 0 && (fx(ns[i].flags) ==> fc(ns[i].flags)),
        forall|i: int| 0 <= i < ns.len() && fc((#[trigger] ns[i]).flags) ==> cs.contains(NodeId(i as usize)), ns.len() <= usize::MAX,
        al.contains(u), rch(*ns[u].state, y), ns[u].value + y > lb, fx(ns[u].flags)
    ensures cut_has(ns, cs, ns[u].value + y)
    decreases k - sd(ns[u])
{
    assert(0 <= u < ns.len()); assert(nok(ns, es, r, u)); assert(sd(ns[u]) <= k);
    if sd(ns[u]) < k {
        assert(covered(ns, es, al, lb, u)); assert(goes(ns, es, al, u, y));
        let (w, e) = choose|w: int, e: int| #[trigger] arc(ns, es, al, u, w, e) && rch(*ns[w].state, y - es[e].cost);
        assert(inb(ns, es, w, e)); assert(eok(ns, es, w, e)); assert(nok(ns, es, r, w));
        if fx(ns[w].flags) {
            fro_lemma(ns, es, r, al, lb, k, cs, w, y - es[e].cost);
            let j = choose|j: int| 0 <= j < cs.len() && accounts(ns, (#[trigger] cs[j]).0 as int, ns[w].value + y - es[e].cost);
            let c = cs[j].0 as int;
            let z = choose|z: int| #[trigger] rch(*ns[c].state, z) && ns[c].value + z >= ns[w].value + y - es[e].cost;
            assert(rch(*ns[c].state, z)); assert(accounts(ns, c, ns[u].value + y));
            return;
        }
        mark_lemma(ns, es, r, al, lb, k, true, dr(r), w, y - es[e].cost);
        assert(closed(ns, es, true, w)); assert(closed1(ns, es, true, w, e));
        assert(fc(ns[u].flags));
    } else { assert(fc(ns[u].flags)); }
    assert(cs.contains(NodeId(u as usize)));
    let j = choose|j: int| 0 <= j < cs.len() && cs[j] == NodeId(u as usize);
    assert(accounts(ns, cs[j].0 as int, ns[u].value + y));
}

pub open spec fn cut_ok<T>(ns: Seq<Node<T>>, es: Seq<Edge>, cs: Seq<NodeId>, best: Option<NodeId>, pa: Seq<Decision>, r: SP<T>, lb: int) -> bool {
    &&& best is None ==> forall|y: int| #[trigger] rch(*r.state, y) ==> r.value + y <= lb
    &&& best is Some ==> {
        &&& dr(r) >= 0 && graph(ns, es, r) && pa =~= r.path && (best->0).0 < ns.len() && ns[(best->0).0 as int].value < isize::MAX && lb >= isize::MIN
        &&& forall|j: int| 0 <= j < cs.len() ==> (#[trigger] cs[j]).0 < ns.len() && fx(ns[cs[j].0 as int].flags) && dr(r) < sd(ns[cs[j].0 as int])
        &&& forall|j: int, y: int| 0 <= j < cs.len() && #[trigger] rch(*ns[(#[trigger] cs[j]).0 as int].state, y) && ns[cs[j].0 as int].value + y > lb ==> {
            let n = ns[cs[j].0 as int]; fm(n.flags) && y <= n.value_bot && y <= n.rub && n.value + y <= ns[(best->0).0 as int].value }
        &&& forall|y: int| #[trigger] rch(*r.state, y) && r.value + y > lb ==> cut_has(ns, cs, r.value + y)
    }
}
