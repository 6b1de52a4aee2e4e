// ---------------------------------------------------------------- from the graph to sub-problems and records
pub open spec fn all_cov<T>(ns: Seq<Node<T>>, es: Seq<Edge>, al: ISet<int>, lb: int, k: int) -> bool { forall|u: int| #[trigger] al.contains(u) && sd(ns[u]) < k ==> covered(ns, es, al, lb, u) }
/// layer k is the last one: terminal, or empty
pub open spec fn last<T>(ns: Seq<Node<T>>, al: ISet<int>, k: int) -> bool { k == nvars::<T>() || forall|i: int| #[trigger] al.contains(i) ==> sd(ns[i]) != k }
pub open spec fn topped<T>(ns: Seq<Node<T>>, al: ISet<int>, x: int) -> bool { exists|t: int| #[trigger] al.contains(t) && sd(ns[t]) == nvars::<T>() && ns[t].value >= x }
/// a record that was read accounts for the threshold of n
pub open spec fn by_rec<T>(seen: ISet<Rec<T>>, n: Node<T>) -> bool { exists|q: Rec<T>| #[trigger] seen.contains(q) && q.s == *n.state && q.th >= n.theta }
pub open spec fn pok<T>(ns: Seq<Node<T>>, seen: ISet<Rec<T>>) -> bool { forall|i: int| 0 <= i < ns.len() && fp((#[trigger] ns[i]).flags) ==> by_rec(seen, ns[i]) }
pub open spec fn vth<T>(ns: Seq<Node<T>>) -> bool { forall|i: int| 0 <= i < ns.len() ==> (#[trigger] ns[i]).value <= ns[i].theta }
/// depth of whoever accounts for a completion of n that is lost
pub open spec fn xd<T>(n: Node<T>) -> int { if fp(n.flags) { sd(n) } else { sd(n) + 1 } }
pub proof fn pruned_exc<T>(seen: ISet<Rec<T>>, n: Node<T>, y: int, x: int)
    requires by_rec(seen, n), rch(*n.state, y), n.theta + y >= x, fp(n.flags)
    ensures exc(seen, x, xd(n))
{
    let q = choose|q: Rec<T>| #[trigger] seen.contains(q) && q.s == *n.state && q.th >= n.theta;
    assert(rch(q.s, y)); assert(exc1(q, x, sd(n)));
}
pub open spec fn diag<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, lb: int, k: int, seen: ISet<Rec<T>>) -> bool {
    &&& graph(ns, es, r) && alive_ok(ns, al) && all_cov(ns, es, al, lb, k) && last(ns, al, k) && k <= nvars::<T>() && pok(ns, seen) && vth(ns)
    &&& forall|i: int| 0 <= i < ns.len() ==> sd(#[trigger] ns[i]) <= k
}
/// an improving completion of an alive node ends in a terminal node worth at least as much, or a record accounts for it
pub proof fn term_lemma<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, lb: int, k: int, seen: ISet<Rec<T>>, u: int, y: int)
    requires diag(ns, es, r, al, lb, k, seen), al.contains(u), rch(*ns[u].state, y), ns[u].value + y > lb
    ensures topped(ns, al, ns[u].value + y) || exc(seen, ns[u].value + y, xd(ns[u]))
    decreases k - sd(ns[u])
{
    assert(0 <= u < ns.len()); assert(nok(ns, es, r, u)); assert(sd(ns[u]) <= k); let _ = ns[u];
    if sd(ns[u]) < k {
        assert(covered(ns, es, al, lb, u));
        if fp(ns[u].flags) { pruned_exc(seen, ns[u], y, ns[u].value + y); return; }
        assert(goes(ns, es, al, u, y));
        let (w, e) = choose|w: int, e: int| #[trigger] arc(ns, es, al, u, w, e) && rch(*ns[w].state, y - es[e].cost);
        assert(inb(ns, es, w, e)); assert(eok(ns, es, w, e));
        term_lemma(ns, es, r, al, lb, k, seen, w, y - es[e].cost);
        if exc(seen, ns[w].value + y - es[e].cost, xd(ns[w])) { exc_less(seen, ns[w].value + y - es[e].cost, xd(ns[w]), ns[u].value + y, xd(ns[u])); return; }
        let t = choose|t: int| #[trigger] al.contains(t) && sd(ns[t]) == nvars::<T>() && ns[t].value >= ns[w].value + y - es[e].cost;
        assert(al.contains(t));
    } else { assert(y <= 0); }
}
/// the backward pass is over
pub open spec fn swept<T>(ns: Seq<Node<T>>, es: Seq<Edge>, al: ISet<int>, lb: int, fro: bool) -> bool {
    &&& forall|i: int| #[trigger] al.contains(i) ==> bclosed(ns, es, fro, i) && (fc(ns[i].flags) ==> ns[i].theta <= cutth(ns[i], lb))
    &&& forall|i: int| #[trigger] al.contains(i) && sd(ns[i]) == nvars::<T>() ==> fm(ns[i].flags) && ns[i].value_bot >= 0 && (fro && fx(ns[i].flags) ==> fc(ns[i].flags))
}
/// completions that beat lb from the threshold of an alive node are accounted for by its mark and local bound, or by a record
pub proof fn mark_lemma<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, lb: int, k: int, seen: ISet<Rec<T>>, fro: bool, u: int, y: int)
    requires diag(ns, es, r, al, lb, k, seen), swept(ns, es, al, lb, fro), al.contains(u), rch(*ns[u].state, y), ns[u].theta + y > lb
    ensures (fm(ns[u].flags) && ns[u].value_bot >= y) || exc(seen, ns[u].theta + y, xd(ns[u]))
    decreases k - sd(ns[u])
{
    assert(0 <= u < ns.len()); assert(nok(ns, es, r, u)); assert(sd(ns[u]) <= k);
    if sd(ns[u]) < k {
        assert(covered(ns, es, al, lb, u));
        if fp(ns[u].flags) { pruned_exc(seen, ns[u], y, ns[u].theta + y); return; }
        assert(goes(ns, es, al, u, y));
        let (w, e) = choose|w: int, e: int| #[trigger] arc(ns, es, al, u, w, e) && rch(*ns[w].state, y - es[e].cost);
        assert(inb(ns, es, w, e)); assert(eok(ns, es, w, e)); assert(nok(ns, es, r, w)); assert(al.contains(w));
        assert(bclosed(ns, es, fro, w)); assert(bclosed1(ns, es, fro, w, e));
        mark_lemma(ns, es, r, al, lb, k, seen, fro, w, y - es[e].cost);
        if exc(seen, ns[w].theta + y - es[e].cost, xd(ns[w])) { exc_less(seen, ns[w].theta + y - es[e].cost, xd(ns[w]), ns[u].theta + y, xd(ns[u])); return; }
    } else { assert(y <= 0); }
}
/// c accounts for a completion worth x
pub open spec fn accounts<T>(ns: Seq<Node<T>>, c: int, x: int) -> bool { exists|z: int| #[trigger] rch(*ns[c].state, z) && ns[c].value + z >= x }
/// a node of the cutset of depth at least d accounts for x
pub open spec fn is_cut<T>(ns: Seq<Node<T>>, al: ISet<int>, lb: int, c: int, x: int, d: int) -> bool {
    al.contains(c) && fc(ns[c].flags) && fx(ns[c].flags) && !fp(ns[c].flags) && fm(ns[c].flags) && sd(ns[c]) >= d && accounts(ns, c, x)
}
pub open spec fn cut_has<T>(ns: Seq<Node<T>>, al: ISet<int>, lb: int, x: int, d: int) -> bool { exists|c: int| #[trigger] is_cut(ns, al, lb, c, x, d) }
/// the cutset: exact alive nodes; every alive node of depth kc that was not pruned (last exact layer)
pub open spec fn cutset_ok<T>(ns: Seq<Node<T>>, al: ISet<int>, fro: bool, kc: int) -> bool {
    &&& !fro ==> forall|i: int| #[trigger] al.contains(i) ==> (sd(ns[i]) == kc && !fp(ns[i].flags) ==> fc(ns[i].flags) && fx(ns[i].flags)) && (fc(ns[i].flags) ==> sd(ns[i]) == kc)
}
pub proof fn cut_here<T>(n: Node<T>, lb: int, y: int)
    requires n.theta <= cutth(n, lb), n.theta + y > lb, n.value_bot >= y, -big() <= n.value_bot <= big(), -big() <= n.value <= big(), isize::MIN <= lb <= isize::MAX
    ensures n.theta <= n.value
{ }
/// a completion that beats lb from the threshold of an exact node leaves the exact part through the cutset, or a record accounts for it
#[verifier::spinoff_prover]
#[verifier::rlimit(100)]
pub proof fn cut_lemma<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, lb: int, k: int, seen: ISet<Rec<T>>, fro: bool, kc: int, u: int, y: int)
    requires diag(ns, es, r, al, lb, k, seen), swept(ns, es, al, lb, fro), cutset_ok(ns, al, fro, kc), small::<T>(r.value), model_ok::<T>(), dr(r) >= 0, isize::MIN <= lb <= isize::MAX,
        forall|i: int| 0 <= i < ns.len() && fm((#[trigger] ns[i]).flags) ==> -big() <= ns[i].value_bot <= big(),
        al.contains(u), rch(*ns[u].state, y), ns[u].theta + y > lb, if fro { fx(ns[u].flags) } else { sd(ns[u]) <= kc <= k },
    ensures cut_has(ns, al, lb, ns[u].theta + y, if fc(ns[u].flags) { sd(ns[u]) } else { sd(ns[u]) + 1 }) || exc(seen, ns[u].theta + y, xd(ns[u]))
    decreases k - sd(ns[u])
{
    assert(0 <= u < ns.len()); assert(nok(ns, es, r, u)); assert(sd(ns[u]) <= k); let _ = ns[u]; vok_small(ns, r, u);
    let x = ns[u].theta + y; let n = ns[u];
    mark_lemma(ns, es, r, al, lb, k, seen, fro, u, y);
    if exc(seen, x, xd(n)) { return; }
    if fp(n.flags) { if sd(n) < k { pruned_exc(seen, n, y, x); } else { pruned_exc(seen, n, y, x); } return; }
    if fc(n.flags) && (fro || sd(n) == kc) {
        cut_here(n, lb, y);
        assert(rch(*n.state, y)); assert(accounts(ns, u, x)); assert(is_cut(ns, al, lb, u, x, sd(n)));
        return;
    }
    if sd(n) == k { assert(al.contains(u) && sd(ns[u]) == k); assert(k == nvars::<T>()); return; }
    assert(covered(ns, es, al, lb, u)); assert(goes(ns, es, al, u, y));
    let (w, e) = choose|w: int, e: int| #[trigger] arc(ns, es, al, u, w, e) && rch(*ns[w].state, y - es[e].cost);
    assert(inb(ns, es, w, e)); assert(eok(ns, es, w, e)); assert(nok(ns, es, r, w)); assert(al.contains(w));
    assert(bclosed(ns, es, fro, w)); assert(bclosed1(ns, es, fro, w, e));
    let x2 = ns[w].theta + y - es[e].cost;
    if fro && !fx(ns[w].flags) {
        mark_lemma(ns, es, r, al, lb, k, seen, fro, w, y - es[e].cost);
        exc_less(seen, x2, xd(ns[w]), x, xd(n));
        return;
    }
    cut_lemma(ns, es, r, al, lb, k, seen, fro, kc, w, y - es[e].cost);
    if exc(seen, x2, xd(ns[w])) { exc_less(seen, x2, xd(ns[w]), x, xd(n)); return; }
    let d2 = if fc(ns[w].flags) { sd(ns[w]) } else { sd(ns[w]) + 1 };
    let c = choose|c: int| #[trigger] is_cut(ns, al, lb, c, x2, d2);
    let z = choose|z: int| #[trigger] rch(*ns[c].state, z) && ns[c].value + z >= x2;
    assert(rch(*ns[c].state, z)); assert(accounts(ns, c, x)); assert(is_cut(ns, al, lb, c, x, sd(n) + 1));
}
