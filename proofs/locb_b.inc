// ---------------------------------------------------------------- local bounds and thresholds: the backward pass
/// what the arc e into node i has passed on
pub open spec fn bclosed1<T>(ns: Seq<Node<T>>, es: Seq<Edge>, fro: bool, i: int, e: int) -> bool {
    let f = es[e].from.0 as int;
    &&& fm(ns[i].flags) ==> fm(ns[f].flags) && ns[f].value_bot >= ns[i].value_bot + es[e].cost
    &&& ns[f].theta <= ns[i].theta - es[e].cost
    &&& fro && fm(ns[i].flags) && !fx(ns[i].flags) && fx(ns[f].flags) ==> fc(ns[f].flags)
}
pub open spec fn bclosed<T>(ns: Seq<Node<T>>, es: Seq<Edge>, fro: bool, i: int) -> bool { forall|e: int| #[trigger] inb(ns, es, i, e) ==> bclosed1(ns, es, fro, i, e) }
/// the threshold of a node of the cutset
pub open spec fn cutth<T>(n: Node<T>, lb: int) -> int { if sat(n.value + n.value_bot) < lb { sat(lb - n.value_bot) } else { n.value as int } }
/// n0 after some of the backward pass
pub open spec fn bnode<T>(n0: Node<T>, n: Node<T>) -> bool {
    &&& alike(n0, n) && n.rub == n0.rub && fd(n.flags) == fd(n0.flags) && fp(n.flags) == fp(n0.flags) && n.theta <= n0.theta && n.value <= n.theta && (fc(n0.flags) ==> fc(n.flags))
    &&& if fm(n.flags) { -lim::<T>(nvars::<T>() - sd(n)) <= n.value_bot <= lim::<T>(nvars::<T>() - sd(n)) } else { n.value_bot == isize::MIN }
}
pub open spec fn bnodes<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>) -> bool { ns.len() == ms.len() && forall|i: int| 0 <= i < ns.len() ==> bnode(ns[i], #[trigger] ms[i]) }
/// b is a later version of a
pub open spec fn bup<T>(a: Node<T>, b: Node<T>) -> bool {
    (fm(a.flags) ==> fm(b.flags)) && a.value_bot <= b.value_bot && b.theta <= a.theta && (fc(a.flags) ==> fc(b.flags)) && fx(a.flags) == fx(b.flags) && a.inbound == b.inbound && a.state == b.state
}
/// the nodes from j on have been processed
pub open spec fn back<T>(ms: Seq<Node<T>>, es: Seq<Edge>, lb: int, fro: bool, j: int) -> bool {
    forall|i: int| j <= i < ms.len() && !fd((#[trigger] ms[i]).flags) ==> bclosed(ms, es, fro, i) && (fc(ms[i].flags) ==> ms[i].theta <= cutth(ms[i], lb))
}
pub proof fn back_up<T>(ms: Seq<Node<T>>, nn: Seq<Node<T>>, es: Seq<Edge>, lb: int, fro: bool, j: int)
    requires back(ms, es, lb, fro, j), ms.len() == nn.len(), forall|i: int| j <= i < ms.len() ==> #[trigger] nn[i] == ms[i], forall|i: int| 0 <= i < ms.len() ==> bup(ms[i], #[trigger] nn[i]),
        forall|e: int| 0 <= e < es.len() ==> (#[trigger] es[e]).from.0 < ms.len(),
    ensures back(nn, es, lb, fro, j)
{
    assert forall|i: int| j <= i < nn.len() && !fd((#[trigger] nn[i]).flags) implies bclosed(nn, es, fro, i) && (fc(nn[i].flags) ==> nn[i].theta <= cutth(nn[i], lb)) by {
        assert(nn[i] == ms[i]); let _ = ms[i]; assert(bclosed(ms, es, fro, i));
        assert forall|e: int| #[trigger] inb(nn, es, i, e) implies bclosed1(nn, es, fro, i, e) by {
            assert(inb(ms, es, i, e)); assert(bclosed1(ms, es, fro, i, e)); inl_bound(es, hd(ms[i].inbound), e); let f = es[e].from.0 as int; assert(bup(ms[f], nn[f]));
        }
    }
}
/// the cutset of the frontier type: exact nodes that are terminal or have an arc into an inexact node
pub open spec fn okcut<T>(ns: Seq<Node<T>>, es: Seq<Edge>, i: int, k0: int) -> bool {
    &&& 0 <= i < ns.len() && fx(ns[i].flags)
    &&& sd(ns[i]) == k0 || exists|w: int, e: int| #[trigger] inb(ns, es, w, e) && es[e].from.0 == i && !fx(ns[w].flags)
}
pub open spec fn frocut<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, es: Seq<Edge>, cs: Seq<NodeId>, k0: int) -> bool {
    &&& forall|i: int| 0 <= i < ms.len() && fc((#[trigger] ms[i]).flags) ==> cs.contains(NodeId(i as usize))
    &&& forall|j: int| 0 <= j < cs.len() ==> okcut(ns, es, (#[trigger] cs[j]).0 as int, k0) && fc(ms[cs[j].0 as int].flags)
}
/// the record published for a node at the end of the backward pass
pub open spec fn frec<T>(ns: Seq<Node<T>>, q: Rec<T>, j: int, lel: Option<usize>, i: int) -> bool {
    let n = ns[i];
    j <= i < ns.len() && !fd(n.flags) && fx(n.flags) && !fp(n.flags) && q.s == *n.state && q.th == n.theta && q.ex == !fc(n.flags) && (lel is Some ==> sd(n) <= lel->0)
}
pub open spec fn frecs<T>(ns: Seq<Node<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, j: int, lel: Option<usize>) -> bool {
    p0.subset_of(pubs) && forall|q: Rec<T>| #[trigger] pubs.contains(q) ==> p0.contains(q) || exists|i: int| #[trigger] frec(ns, q, j, lel, i)
}
pub proof fn frecs_down<T>(ns: Seq<Node<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, j: int, lel: Option<usize>)
    requires frecs(ns, p0, pubs, j + 1, lel)
    ensures frecs(ns, p0, pubs, j, lel)
{
    assert forall|q: Rec<T>| #[trigger] pubs.contains(q) implies p0.contains(q) || exists|i: int| #[trigger] frec(ns, q, j, lel, i) by {
        if !p0.contains(q) { let i = choose|i: int| #[trigger] frec(ns, q, j + 1, lel, i); assert(frec(ns, q, j, lel, i)); }
    }
}
pub proof fn frecs_same<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, j: int, lel: Option<usize>)
    requires frecs(ns, p0, pubs, j, lel), ms.len() == ns.len(), forall|i: int| j <= i < ns.len() ==> #[trigger] ms[i] == ns[i]
    ensures frecs(ms, p0, pubs, j, lel)
{
    assert forall|q: Rec<T>| #[trigger] pubs.contains(q) implies p0.contains(q) || exists|i: int| #[trigger] frec(ms, q, j, lel, i) by {
        if !p0.contains(q) { let i = choose|i: int| #[trigger] frec(ns, q, j, lel, i); assert(ms[i] == ns[i]); assert(frec(ms, q, j, lel, i)); }
    }
}
pub open spec fn bcut<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, es: Seq<Edge>, cs0: Seq<NodeId>, cs: Seq<NodeId>, fro: bool, apx: bool, k0: int) -> bool {
    if fro { frocut(ns, ms, es, cs, k0) } else { cs =~= cs0 && forall|i: int| 0 <= i < ms.len() && fc((#[trigger] ms[i]).flags) ==> fc(ns[i].flags) || (!apx && sd(ns[i]) == k0) }
}
/// the nodes of the last layer are marked
pub open spec fn bterm1<T>(n: Node<T>, fro: bool, apx: bool) -> bool { fm(n.flags) && n.value_bot >= 0 && (fro && fx(n.flags) ==> fc(n.flags)) && (!fro && !apx ==> fc(n.flags)) }
pub open spec fn bterm<T>(ms: Seq<Node<T>>, nl: Map<Arc<T>, NodeId>, fro: bool, apx: bool) -> bool {
    forall|s: Arc<T>| #[trigger] nl.contains_key(s) ==> nl[s].0 < ms.len() && bterm1(ms[nl[s].0 as int], fro, apx)
}
pub proof fn bterm_up<T>(ms: Seq<Node<T>>, nn: Seq<Node<T>>, nl: Map<Arc<T>, NodeId>, fro: bool, apx: bool)
    requires bterm(ms, nl, fro, apx), ms.len() == nn.len(), forall|i: int| 0 <= i < ms.len() ==> bup(ms[i], #[trigger] nn[i])
    ensures bterm(nn, nl, fro, apx)
{ assert forall|s: Arc<T>| #[trigger] nl.contains_key(s) implies nl[s].0 < nn.len() && bterm1(nn[nl[s].0 as int], fro, apx) by { assert(bup(ms[nl[s].0 as int], nn[nl[s].0 as int])); } }
/// what the backward pass leaves
pub open spec fn locb_out<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, es: Seq<Edge>, cs0: Seq<NodeId>, cs: Seq<NodeId>, lb: int, fro: bool, apx: bool, k0: int, nl: Map<Arc<T>, NodeId>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, lel: Option<usize>) -> bool {
    bnodes(ns, ms) && back(ms, es, lb, fro, 0) && frecs(ms, p0, pubs, 0, lel) && bterm(ms, nl, fro, apx) && bcut(ns, ms, es, cs0, cs, fro, apx, k0)
}
/// one arc h of node j
pub open spec fn bstep1<T>(np: Seq<Node<T>>, nn: Seq<Node<T>>, es: Seq<Edge>, csp: Seq<NodeId>, csn: Seq<NodeId>, fro: bool, j: int, h: int) -> bool {
    let x = es[h]; let f = x.from.0 as int; let a = np[f]; let b = nn[f]; let i = np[j];
    let add = fro && fm(i.flags) && !fx(i.flags) && fx(a.flags) && !fc(a.flags);
    let vb = sat(i.value_bot + x.cost); let th = sat(i.theta - x.cost);
    &&& nn.len() == np.len() && forall|q: int| 0 <= q < np.len() && q != f ==> #[trigger] nn[q] == np[q]
    &&& alike(a, b) && b.rub == a.rub && b.state == a.state && fd(b.flags) == fd(a.flags) && fp(b.flags) == fp(a.flags)
    &&& fm(b.flags) == (fm(a.flags) || fm(i.flags)) && fc(b.flags) == (fc(a.flags) || add)
    &&& b.value_bot == if fm(i.flags) && vb > a.value_bot { vb } else { a.value_bot as int }
    &&& b.theta == if th < a.theta { th } else { a.theta as int }
    &&& csn =~= if add { csp.push(x.from) } else { csp }
}
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn bstep<T>(ns: Seq<Node<T>>, np: Seq<Node<T>>, nn: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, cs0: Seq<NodeId>, csp: Seq<NodeId>, csn: Seq<NodeId>, fro: bool, apx: bool, k0: int, j: int, h: int)
    requires graph(ns, es, r), model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, sorted(ns), bnodes(ns, np), inb(ns, es, j, h), 0 <= j < ns.len() <= usize::MAX, bcut(ns, np, es, cs0, csp, fro, apx, k0), bstep1(np, nn, es, csp, csn, fro, j, h)
    ensures ({ let f = es[h].from.0 as int;
        &&& f < j && bnodes(ns, nn) && bcut(ns, nn, es, cs0, csn, fro, apx, k0) && bclosed1(nn, es, fro, j, h)
        &&& forall|i: int| 0 <= i < np.len() ==> bup(np[i], #[trigger] nn[i])
        &&& forall|i: int| j <= i < np.len() ==> np[i] == #[trigger] nn[i]
        &&& forall|e: int| #[trigger] inb(ns, es, j, e) && bclosed1(np, es, fro, j, e) ==> bclosed1(nn, es, fro, j, e) }),
{
    let f = es[h].from.0 as int;
    assert(eok(ns, es, j, h)); assert(nok(ns, es, r, j)); assert(nok(ns, es, r, f)); vok_small(ns, r, j); vok_small(ns, r, f);
    assert(f < j) by { reveal(sorted); if f >= j { assert(sd(ns[j]) <= sd(ns[f])); } }
    assert(bnode(ns[j], np[j])); assert(bnode(ns[f], np[f]));
    let q = nvars::<T>() - sd(ns[j]);
    lim_mono::<T>(0, q); lim_mono::<T>(q + 1, nvars::<T>() + 1); assert(lim::<T>(q + 1) == lim::<T>(q) + cmax::<T>());
    assert(bnode(ns[f], nn[f]));
    assert forall|i: int| 0 <= i < ns.len() implies bnode(ns[i], #[trigger] nn[i]) && bup(np[i], nn[i]) by { assert(bnode(ns[i], np[i])); if i != f { assert(nn[i] == np[i]); } }
    assert(nn[j] == np[j]);
    assert forall|e: int| #[trigger] inb(ns, es, j, e) && bclosed1(np, es, fro, j, e) implies bclosed1(nn, es, fro, j, e) by { assert(eok(ns, es, j, e)); let g = es[e].from.0 as int; assert(bup(np[g], nn[g])); }
    if fro {
        assert forall|i: int| 0 <= i < nn.len() && fc((#[trigger] nn[i]).flags) implies csn.contains(NodeId(i as usize)) by {
            if fc(np[i].flags) { assert(csp.contains(NodeId(i as usize))); let p = choose|p: int| 0 <= p < csp.len() && csp[p] == NodeId(i as usize); assert(csn[p] == csp[p]); }
            else { assert(i == f); assert(csn[csp.len() as int] == NodeId(i as usize)); }
        }
        assert forall|p: int| 0 <= p < csn.len() implies okcut(ns, es, (#[trigger] csn[p]).0 as int, k0) && fc(nn[csn[p].0 as int].flags) by {
            if p < csp.len() { assert(csn[p] == csp[p]); let c = csp[p].0 as int; assert(bup(np[c], nn[c])); }
            else { assert(csn[p] == es[h].from); assert(inb(ns, es, j, h)); }
        }
    }
}
/// the threshold of node j
pub open spec fn bown<T>(nb: Seq<Node<T>>, nc: Seq<Node<T>>, lb: int, j: int) -> bool {
    let c = cutth(nb[j], lb);
    &&& nc.len() == nb.len() && forall|q: int| 0 <= q < nb.len() && q != j ==> #[trigger] nc[q] == nb[q]
    &&& nc[j] == (Node { theta: nc[j].theta, ..nb[j] }) && nc[j].theta == if fc(nb[j].flags) && c < nb[j].theta { c } else { nb[j].theta as int }
}
pub proof fn bown_step<T>(ns: Seq<Node<T>>, nb: Seq<Node<T>>, nc: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, cs0: Seq<NodeId>, cs: Seq<NodeId>, fro: bool, apx: bool, k0: int, lb: int, j: int)
    requires graph(ns, es, r), model_ok::<T>(), small::<T>(r.value), dr(r) >= 0, bnodes(ns, nb), 0 <= j < ns.len(), bcut(ns, nb, es, cs0, cs, fro, apx, k0), bown(nb, nc, lb, j), isize::MIN <= lb <= isize::MAX
    ensures bnodes(ns, nc), bcut(ns, nc, es, cs0, cs, fro, apx, k0), forall|i: int| 0 <= i < nb.len() ==> bup(nb[i], #[trigger] nc[i]), fc(nc[j].flags) ==> nc[j].theta <= cutth(nc[j], lb)
{
    assert(nok(ns, es, r, j)); vok_small(ns, r, j);
    assert(bnode(ns[j], nb[j])); 
    let q = nvars::<T>() - sd(ns[j]); lim_mono::<T>(q, nvars::<T>() + 1); lim_mono::<T>(0, q);
    assert(bnode(ns[j], nc[j]));
    assert forall|i: int| 0 <= i < ns.len() implies bnode(ns[i], #[trigger] nc[i]) && bup(nb[i], nc[i]) && nc[i].flags == nb[i].flags by { assert(bnode(ns[i], nb[i])); if i != j { assert(nc[i] == nb[i]); } }
    assert forall|i: int| 0 <= i < nc.len() implies fc((#[trigger] nc[i]).flags) == fc(nb[i].flags) by {}
    if fro { assert forall|p: int| 0 <= p < cs.len() implies okcut(ns, es, (#[trigger] cs[p]).0 as int, k0) && fc(nc[cs[p].0 as int].flags) by { } }
}
