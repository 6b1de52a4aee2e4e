// ---------------------------------------------------------------- local bounds
/// every arc into node i has passed i's local bound on
pub open spec fn closed1<T>(ns: Seq<Node<T>>, es: Seq<Edge>, fro: bool, i: int, e: int) -> bool {
    let f = es[e].from.0 as int;
    fm(ns[f].flags) && ns[f].value_bot >= ns[i].value_bot + es[e].cost && (fro && fx(ns[f].flags) && !fx(ns[i].flags) ==> fc(ns[f].flags))
}
pub open spec fn closed<T>(ns: Seq<Node<T>>, es: Seq<Edge>, fro: bool, i: int) -> bool { forall|e: int| #[trigger] inb(ns, es, i, e) ==> closed1(ns, es, fro, i, e) }
pub open spec fn stops<T>(n: Node<T>, fro: bool) -> bool { !fro && fc(n.flags) }
/// a node that may enter the frontier cutset: exact, and terminal or with an inexact child
pub open spec fn okcut<T>(ns: Seq<Node<T>>, es: Seq<Edge>, i: int, k: int) -> bool {
    0 <= i < ns.len() && fx(ns[i].flags) && (sd(ns[i]) == k || exists|w: int, e: int| #[trigger] inb(ns, es, w, e) && es[e].from.0 == i && !fx(ns[w].flags))
}
pub open spec fn locb_base<T>(ns0: Seq<Node<T>>, ns: Seq<Node<T>>, es: Seq<Edge>, cs0: Seq<NodeId>, cs: Seq<NodeId>, fro: bool, k: int) -> bool {
    &&& alike_all(ns0, ns)
    &&& forall|i: int| 0 <= i < ns0.len() ==> (#[trigger] ns[i]).rub == ns0[i].rub && ns[i].value_bot <= lim::<T>(nvars::<T>() - sd(ns[i]))
    &&& fro ==> (forall|i: int| 0 <= i < ns.len() && fc((#[trigger] ns[i]).flags) ==> cs.contains(NodeId(i as usize)))
            && (forall|j: int| 0 <= j < cs.len() ==> okcut(ns0, es, (#[trigger] cs[j]).0 as int, k))
    &&& !fro ==> cs == cs0 && forall|i: int| 0 <= i < ns.len() ==> fc((#[trigger] ns[i]).flags) == fc(ns0[i].flags)
}
pub open spec fn vis<T>(ns: Seq<Node<T>>, v: Seq<NodeId>, k: int, fro: bool) -> bool {
    &&& forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).0 < ns.len() && sd(ns[v[j].0 as int]) == k && fm(ns[v[j].0 as int].flags) && !stops(ns[v[j].0 as int], fro)
    &&& forall|i: int| 0 <= i < ns.len() && fm((#[trigger] ns[i]).flags) && sd(ns[i]) == k && !stops(ns[i], fro) ==> v.contains(NodeId(i as usize))
    &&& forall|i: int| 0 <= i < ns.len() && fm((#[trigger] ns[i]).flags) ==> sd(ns[i]) >= k
}
pub open spec fn done<T>(ns: Seq<Node<T>>, es: Seq<Edge>, k: int, fro: bool) -> bool {
    forall|i: int| 0 <= i < ns.len() && fm((#[trigger] ns[i]).flags) && sd(ns[i]) > k && !stops(ns[i], fro) ==> closed(ns, es, fro, i)
}
/// marks, cutset and bounds only grow; nothing moves from depth k on
pub open spec fn mono<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, k: int, fro: bool) -> bool {
    &&& alike_all(ns, ms)
    &&& forall|i: int| 0 <= i < ns.len() ==> (fm(ns[i].flags) ==> fm((#[trigger] ms[i]).flags)) && (fc(ns[i].flags) ==> fc(ms[i].flags)) && ms[i].value_bot >= ns[i].value_bot
            && (sd(ns[i]) >= k ==> fm(ns[i].flags) == fm(ms[i].flags) && ms[i].value_bot == ns[i].value_bot)
            && (!fro ==> fc(ns[i].flags) == fc(ms[i].flags))
}
pub proof fn closed_mono<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, k: int, fro: bool, i: int)
    requires graph(ns, es, r), mono(ns, ms, k, fro), closed(ns, es, fro, i), 0 <= i < ns.len(), sd(ns[i]) >= k
    ensures closed(ms, es, fro, i)
{
    graph_alike(ns, ms, es, r, -1);
    assert(alike(ns[i], ms[i]));
    assert forall|e: int| #[trigger] inb(ms, es, i, e) implies closed1(ms, es, fro, i, e) by {
        assert(inb(ns, es, i, e)); assert(eok(ns, es, i, e)); assert(closed1(ns, es, fro, i, e));
        let f = es[e].from.0 as int; assert(alike(ns[f], ms[f]));
    }
}
pub proof fn mono_trans<T>(a: Seq<Node<T>>, b: Seq<Node<T>>, c: Seq<Node<T>>, k: int, fro: bool)
    requires mono(a, b, k, fro), mono(b, c, k, fro)
    ensures mono(a, c, k, fro)
{
    assert forall|i: int| 0 <= i < a.len() implies alike(a[i], #[trigger] c[i]) by { assert(alike(a[i], b[i])); assert(alike(b[i], c[i])); }
    assert forall|i: int| 0 <= i < a.len() implies (fm(a[i].flags) ==> fm((#[trigger] c[i]).flags)) && (fc(a[i].flags) ==> fc(c[i].flags)) && c[i].value_bot >= a[i].value_bot
            && (sd(a[i]) >= k ==> fm(a[i].flags) == fm(c[i].flags) && c[i].value_bot == a[i].value_bot)
            && (!fro ==> fc(a[i].flags) == fc(c[i].flags)) by { assert(alike(a[i], b[i])); let _ = b[i]; }
}
pub open spec fn marked_cut<T>(ns: Seq<Node<T>>, fro: bool) -> bool { fro ==> forall|i: int| 0 <= i < ns.len() && fc((#[trigger] ns[i]).flags) ==> fm(ns[i].flags) }
/// the bound of node n (depth k) passed over its inbound arc h to node f
pub proof fn locb_step<T>(ns0: Seq<Node<T>>, nb: Seq<Node<T>>, np: Seq<Node<T>>, nn: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, cs0: Seq<NodeId>, csp: Seq<NodeId>, csn: Seq<NodeId>,
        vip: Seq<NodeId>, vin: Seq<NodeId>, fro: bool, k: int, k0: int, n: int, h: int)
    requires
        graph(ns0, es, r), alike_all(ns0, nb), mono(nb, np, k, fro), locb_base(ns0, np, es, cs0, csp, fro, k0), vis(np, vip, k - 1, fro), marked_cut(np, fro),
        0 <= n < ns0.len(), sd(ns0[n]) == k, inb(ns0, es, n, h), np.len() == nn.len(), np.len() <= usize::MAX, fm(np[n].flags),
        ({ let f = es[h].from.0 as int; let b = es[h].from;
            &&& forall|i: int| 0 <= i < np.len() && i != f ==> #[trigger] nn[i] == np[i]
            &&& alike(np[f], nn[f]) && np[f].rub == nn[f].rub && fm(nn[f].flags)
            &&& nn[f].value_bot >= np[f].value_bot && nn[f].value_bot >= np[n].value_bot + es[h].cost && nn[f].value_bot <= lim::<T>(nvars::<T>() - (k - 1))
            &&& fc(nn[f].flags) == (fc(np[f].flags) || (fro && fx(np[f].flags) && !fx(np[n].flags)))
            &&& csn == if !fc(np[f].flags) && fc(nn[f].flags) { csp.push(b) } else { csp }
            &&& vin == if !fm(np[f].flags) && !fc(np[f].flags) { vip.push(b) } else { vip } }),
    ensures
        mono(np, nn, k, fro), mono(nb, nn, k, fro), locb_base(ns0, nn, es, cs0, csn, fro, k0), vis(nn, vin, k - 1, fro), marked_cut(nn, fro), closed1(nn, es, fro, n, h),
{
    let f = es[h].from.0 as int;
    assert(eok(ns0, es, n, h)); assert(alike(ns0[n], nb[n])); assert(alike(nb[n], np[n])); assert(alike(ns0[f], nb[f])); assert(alike(nb[f], np[f]));
    assert(sd(np[f]) == k - 1);
    assert forall|i: int| 0 <= i < np.len() implies alike(np[i], #[trigger] nn[i]) by { }
    assert(mono(np, nn, k, fro));
    mono_trans(nb, np, nn, k, fro);
    assert(alike_all(ns0, nn)) by { assert forall|i: int| 0 <= i < np.len() implies alike(ns0[i], #[trigger] nn[i]) by { assert(alike(ns0[i], nb[i])); assert(alike(nb[i], nn[i])); } }
    assert forall|i: int| 0 <= i < ns0.len() implies (#[trigger] nn[i]).rub == ns0[i].rub && nn[i].value_bot <= lim::<T>(nvars::<T>() - sd(nn[i])) by { let _ = np[i]; assert(alike(np[i], nn[i])); }
    if fro {
        assert forall|i: int| 0 <= i < nn.len() && fc((#[trigger] nn[i]).flags) implies csn.contains(NodeId(i as usize)) by {
            if fc(np[i].flags) { assert(csp.contains(NodeId(i as usize))); let q = choose|q: int| 0 <= q < csp.len() && csp[q] == NodeId(i as usize); assert(csn[q] == csp[q]); }
            else { assert(i == f); assert(csn[csp.len() as int] == NodeId(i as usize)); }
        }
        assert forall|j: int| 0 <= j < csn.len() implies okcut(ns0, es, (#[trigger] csn[j]).0 as int, k0) by { if j < csp.len() { assert(csn[j] == csp[j]); } else { assert(inb(ns0, es, n, h) && !fx(ns0[n].flags)); } }
    } else {
        assert forall|i: int| 0 <= i < nn.len() implies fc((#[trigger] nn[i]).flags) == fc(ns0[i].flags) by { let _ = np[i]; }
    }
    assert forall|j: int| 0 <= j < vin.len() implies (#[trigger] vin[j]).0 < nn.len() && sd(nn[vin[j].0 as int]) == k - 1 && fm(nn[vin[j].0 as int].flags) && !stops(nn[vin[j].0 as int], fro) by {
        if j < vip.len() { assert(vin[j] == vip[j]); let x = vip[j].0 as int; assert(alike(np[x], nn[x])); }
    }
    assert forall|i: int| 0 <= i < nn.len() && fm((#[trigger] nn[i]).flags) && sd(nn[i]) == k - 1 && !stops(nn[i], fro) implies vin.contains(NodeId(i as usize)) by {
        let _ = np[i];
        if i != f || fm(np[i].flags) {
            assert(alike(np[i], nn[i]));
            assert(vip.contains(NodeId(i as usize)));
            let q = choose|q: int| 0 <= q < vip.len() && vip[q] == NodeId(i as usize); assert(vin[q] == vip[q]);
        } else { assert(!fc(np[f].flags)); assert(vin[vip.len() as int] == NodeId(f as usize)); }
    }
    assert forall|i: int| 0 <= i < nn.len() && fm((#[trigger] nn[i]).flags) implies sd(nn[i]) >= k - 1 by { let _ = np[i]; assert(alike(np[i], nn[i])); }
    assert(n != f); assert(nn[n] == np[n]);
}
