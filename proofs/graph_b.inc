// ---------------------------------------------------------------- the diagram as a graph (barrier-based diagram)
pub open spec fn hd(o: Option<EdgeId>) -> int { match o { Some(e) => e.0 as int, None => -1 } }
/// edge `e` is in the linked list that starts at `h`
pub open spec fn inl(es: Seq<Edge>, h: int, e: int) -> bool decreases h + 1 {
    0 <= h < es.len() && (e == h || (hd(es[h].next) < h && inl(es, hd(es[h].next), e)))
}
pub open spec fn prefix(es: Seq<Edge>, fs: Seq<Edge>) -> bool { es.len() <= fs.len() && forall|i: int| 0 <= i < es.len() ==> fs[i] == #[trigger] es[i] }
pub proof fn inl_bound(es: Seq<Edge>, h: int, e: int)
    requires inl(es, h, e)
    ensures 0 <= e <= h < es.len()
    decreases h + 1
{ if e != h { inl_bound(es, hd(es[h].next), e); } }
pub proof fn inl_tail(es: Seq<Edge>, h: int, e: int)
    requires inl(es, h, e), es[e].next is Some, hd(es[e].next) < e
    ensures inl(es, h, hd(es[e].next))
    decreases h + 1
{ inl_bound(es, h, e); if e != h { inl_tail(es, hd(es[h].next), e); } else { assert(inl(es, hd(es[h].next), hd(es[e].next))); } }
pub proof fn inl_prefix(es: Seq<Edge>, fs: Seq<Edge>, h: int, e: int)
    requires prefix(es, fs), h < es.len()
    ensures inl(es, h, e) == inl(fs, h, e)
    decreases h + 1
{ if 0 <= h && hd(es[h].next) < h { inl_prefix(es, fs, hd(es[h].next), e); } }

pub open spec fn sd<T>(n: Node<T>) -> int { sdepth(*n.state) }
pub open spec fn inb<T>(ns: Seq<Node<T>>, es: Seq<Edge>, i: int, e: int) -> bool { 0 <= i < ns.len() && inl(es, hd(ns[i].inbound), e) }
/// the arc stands for a real transition of the model
pub open spec fn real<T>(ns: Seq<Node<T>>, i: int, x: Edge) -> bool {
    let f = ns[x.from.0 as int];
    indom(*f.state, x.decision) && *ns[i].state == trans(*f.state, x.decision) && x.cost == tcost(*f.state, x.decision)
}
/// what holds of an arc `x` into node i
pub open spec fn aok<T>(ns: Seq<Node<T>>, i: int, x: Edge) -> bool {
    let f = x.from.0 as int;
    &&& f < ns.len() && sd(ns[f]) + 1 == sd(ns[i])
    &&& ns[i].value >= ns[f].value + x.cost && -cmax::<T>() <= x.cost <= cmax::<T>()
    &&& !fr(ns[i].flags) ==> real(ns, i, x)
}
pub open spec fn allreal<T>(ns: Seq<Node<T>>, es: Seq<Edge>, i: int) -> bool { forall|e: int| #[trigger] inb(ns, es, i, e) ==> real(ns, i, es[e]) }
pub open spec fn eok<T>(ns: Seq<Node<T>>, es: Seq<Edge>, i: int, e: int) -> bool { 0 <= e < es.len() && aok(ns, i, es[e]) }
pub open spec fn bpar<T>(ns: Seq<Node<T>>, es: Seq<Edge>, i: int) -> int { es[hd(ns[i].best)].from.0 as int }
/// the best arc of node i explains its value
pub open spec fn bok<T>(ns: Seq<Node<T>>, es: Seq<Edge>, i: int) -> bool {
    let b = hd(ns[i].best); let p = bpar(ns, es, i);
    &&& ns[i].best is Some && inb(ns, es, i, b) && b < es.len()
    &&& 0 <= p < ns.len() && ns[i].value == ns[p].value + es[b].cost
    &&& fx(ns[i].flags) ==> fx(ns[p].flags)
}
/// what holds of a node whatever its arcs
pub open spec fn vok<T>(ns: Seq<Node<T>>, r: SP<T>, i: int) -> bool {
    &&& dr(r) <= sd(ns[i]) <= nvars::<T>()
    &&& -lim::<T>(sd(ns[i]) - dr(r)) <= ns[i].value - r.value <= lim::<T>(sd(ns[i]) - dr(r))
}
pub open spec fn nok<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, i: int) -> bool {
    &&& vok(ns, r, i)
    &&& i == 0 ==> *ns[i].state == *r.state && ns[i].value == r.value && ns[i].best is None && ns[i].inbound is None && fx(ns[i].flags)
    &&& i > 0 ==> dr(r) < sd(ns[i]) && bok(ns, es, i)
}
/// everything but node w (w < 0: no exception)
pub open spec fn graph_but<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, w: int) -> bool {
    &&& ns.len() > 0
    &&& forall|i: int| 0 <= i < ns.len() && i != w ==> #[trigger] nok(ns, es, r, i)
    &&& forall|i: int, e: int| #[trigger] inb(ns, es, i, e) ==> eok(ns, es, i, e)
    &&& forall|i: int| 0 <= i < ns.len() ==> hd((#[trigger] ns[i]).inbound) < es.len()
    &&& forall|e: int| 0 <= e < es.len() ==> (#[trigger] es[e]).from.0 < ns.len() && hd(es[e].next) < e
}
pub open spec fn graph<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>) -> bool { graph_but(ns, es, r, -1) }

/// later graph: same nodes and arcs, more of them
pub open spec fn grows<T>(ns: Seq<Node<T>>, es: Seq<Edge>, ms: Seq<Node<T>>, fs: Seq<Edge>) -> bool {
    &&& ns.len() <= ms.len() && prefix(es, fs)
    &&& forall|i: int| 0 <= i < ns.len() ==> *(#[trigger] ms[i]).state == *ns[i].state
    &&& forall|i: int, e: int| #[trigger] inb(ns, es, i, e) ==> inb(ms, fs, i, e)
}
pub proof fn grows_trans<T>(a: Seq<Node<T>>, ae: Seq<Edge>, b: Seq<Node<T>>, be: Seq<Edge>, c: Seq<Node<T>>, ce: Seq<Edge>)
    requires grows(a, ae, b, be), grows(b, be, c, ce)
    ensures grows(a, ae, c, ce)
{
    assert forall|i: int| 0 <= i < ae.len() implies ce[i] == #[trigger] ae[i] by { assert(be[i] == ae[i]); }
    assert forall|i: int| 0 <= i < a.len() implies *(#[trigger] c[i]).state == *a[i].state by { assert(*b[i].state == *a[i].state); }
}

/// one more arc x, into node w (an old node, or a new one without arcs); no arc leaves w
pub proof fn graph_add<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, ms: Seq<Node<T>>, w: int, x: Edge)
    requires graph_but(ns, es, r, w), 0 < w < ms.len(), ms.len() == ns.len() || (w == ns.len() && ms.len() == w + 1),
        forall|i: int| 0 <= i < ns.len() && i != w ==> #[trigger] ms[i] == ns[i],
        w < ns.len() ==> *ms[w].state == *ns[w].state && ms[w].value >= ns[w].value && hd(x.next) == hd(ns[w].inbound) && ((fr(ns[w].flags) ==> fr(ms[w].flags)) || allreal(ns, es, w)),
        w == ns.len() ==> x.next is None,
        hd(ms[w].inbound) == es.len(), ms[w].inbound is Some,
        aok(ms, w, x), x.from.0 != w, x.from.0 < ns.len(),
        forall|i: int| 0 <= i < ns.len() ==> sd(#[trigger] ns[i]) <= sd(ms[w]),
    ensures graph_but(ms, es.push(x), r, w), grows(ns, es, ms, es.push(x)), inb(ms, es.push(x), w, es.len() as int),
        forall|e: int| inb(ms, es.push(x), w, e) ==> e == es.len() || (w < ns.len() && inb(ns, es, w, e)),
        forall|i: int, e: int| 0 <= i < ns.len() && i != w ==> inb(ms, es.push(x), i, e) == inb(ns, es, i, e),
{
    let fs = es.push(x);
    assert(prefix(es, fs));
    assert forall|i: int, e: int| 0 <= i < ns.len() && i != w implies inb(ms, fs, i, e) == inb(ns, es, i, e) by {
        assert(ms[i] == ns[i]); let _ = ns[i];
        inl_prefix(es, fs, hd(ns[i].inbound), e);
    }
    assert forall|e: int| inb(ms, fs, w, e) <==> e == es.len() || (w < ns.len() && inb(ns, es, w, e)) by {
        if w < ns.len() { let _ = ns[w]; inl_prefix(es, fs, hd(ns[w].inbound), e); }
        assert(fs[es.len() as int] == x);
        let _ = inl(fs, hd(x.next), e);
        assert(inl(fs, es.len() as int, e) == (e == es.len() || inl(fs, hd(x.next), e)));
    }
    assert forall|i: int, e: int| #[trigger] inb(ns, es, i, e) implies inb(ms, fs, i, e) by { if i != w { } }
    assert forall|i: int, e: int| #[trigger] inb(ms, fs, i, e) implies eok(ms, fs, i, e) by {
        if i == w {
            if e != es.len() {
                assert(inb(ns, es, w, e)); assert(eok(ns, es, w, e));
                assert(fs[e] == es[e]);
                let f = es[e].from.0 as int; assert(sd(ns[f]) + 1 == sd(ns[w])); assert(ms[f] == ns[f]);
            }
        } else {
            assert(inb(ns, es, i, e)); assert(eok(ns, es, i, e)); assert(fs[e] == es[e]); assert(ms[i] == ns[i]);
            let f = es[e].from.0 as int; let _ = ns[i]; assert(sd(ns[f]) + 1 == sd(ns[i])); assert(f != w); assert(ms[f] == ns[f]);
        }
    }
    assert forall|i: int| 0 <= i < ms.len() && i != w implies #[trigger] nok(ms, fs, r, i) by {
        assert(nok(ns, es, r, i)); assert(ms[i] == ns[i]);
        if i > 0 {
            let b = hd(ns[i].best); assert(inb(ns, es, i, b)); assert(eok(ns, es, i, b)); inl_bound(es, hd(ns[i].inbound), b);
            assert(fs[b] == es[b]);
            let f = es[b].from.0 as int; let _ = ns[i]; assert(f != w); assert(ms[f] == ns[f]);
            assert(inb(ms, fs, i, b));
        }
    }
    assert forall|i: int| 0 <= i < ms.len() implies hd((#[trigger] ms[i]).inbound) < fs.len() by { if i != w { assert(ms[i] == ns[i]); let _ = ns[i]; } }
    assert forall|e: int| 0 <= e < fs.len() implies (#[trigger] fs[e]).from.0 < ms.len() && hd(fs[e].next) < e by {
        if e < es.len() { assert(fs[e] == es[e]); let _ = es[e]; }
    }
}

// ---------------------------------------------------------------- coverage
pub open spec fn arc<T>(ns: Seq<Node<T>>, es: Seq<Edge>, al: ISet<int>, u: int, w: int, e: int) -> bool {
    al.contains(w) && inb(ns, es, w, e) && es[e].from.0 == u
}
pub open spec fn goes<T>(ns: Seq<Node<T>>, es: Seq<Edge>, al: ISet<int>, u: int, y: int) -> bool {
    exists|w: int, e: int| #[trigger] arc(ns, es, al, u, w, e) && rch(*ns[w].state, y - es[e].cost)
}
/// every completion of u continues through an arc to a node that is still there, or the threshold of u rules it out, or u was pruned by a record
pub open spec fn covered<T>(ns: Seq<Node<T>>, es: Seq<Edge>, al: ISet<int>, lb: int, u: int) -> bool {
    forall|y: int| #[trigger] rch(*ns[u].state, y) ==> goes(ns, es, al, u, y) || fp(ns[u].flags) || ns[u].theta + y <= lb
}
pub open spec fn keepc<T>(a: Node<T>, b: Node<T>) -> bool { b.theta <= a.theta && (fp(a.flags) ==> fp(b.flags)) }
pub proof fn covered_grows<T>(ns: Seq<Node<T>>, es: Seq<Edge>, ms: Seq<Node<T>>, fs: Seq<Edge>, al: ISet<int>, bl: ISet<int>, lb: int, u: int)
    requires covered(ns, es, al, lb, u), grows(ns, es, ms, fs), 0 <= u < ns.len(), keepc(ns[u], ms[u]),
        forall|w: int| #[trigger] al.contains(w) ==> bl.contains(w), forall|w: int| #[trigger] al.contains(w) ==> 0 <= w < ns.len(),
    ensures covered(ms, fs, bl, lb, u)
{
    assert(*ms[u].state == *ns[u].state);
    assert forall|y: int| #[trigger] rch(*ms[u].state, y) && !fp(ms[u].flags) && ms[u].theta + y > lb implies goes(ms, fs, bl, u, y) by {
        assert(rch(*ns[u].state, y)); assert(goes(ns, es, al, u, y));
        let (w, e) = choose|w: int, e: int| #[trigger] arc(ns, es, al, u, w, e) && rch(*ns[w].state, y - es[e].cost);
        inl_bound(es, hd(ns[w].inbound), e);
        assert(fs[e] == es[e]); assert(*ms[w].state == *ns[w].state);
        assert(inb(ms, fs, w, e)); assert(arc(ms, fs, bl, u, w, e));
    }
}

/// one more arc x out of f: the whole step of branch_on (and of one redirection, seen from the node that receives)
pub proof fn branch_step<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, ms: Seq<Node<T>>, w: int, x: Edge)
    requires graph(ns, es, r), model_ok::<T>(), 0 < w < ms.len(), ms.len() == ns.len() || (w == ns.len() && ms.len() == w + 1),
        forall|i: int| 0 <= i < ns.len() && i != w ==> #[trigger] ms[i] == ns[i],
        forall|i: int| 0 <= i < ns.len() ==> sd(#[trigger] ns[i]) <= sd(ms[w]),
        hd(ms[w].inbound) == es.len(), ms[w].inbound is Some, x.from.0 < ns.len(), sd(ns[x.from.0 as int]) + 1 == sd(ms[w]) <= nvars::<T>(), real(ms, w, x), -cmax::<T>() <= x.cost <= cmax::<T>(),
        w < ns.len() ==> *ms[w].state == *ns[w].state && hd(x.next) == hd(ns[w].inbound) && allreal(ns, es, w),
        w == ns.len() ==> x.next is None,
        ({ let v = ns[x.from.0 as int].value + x.cost;
           if w == ns.len() || v > ns[w].value || (v == ns[w].value && fx(ns[x.from.0 as int].flags)) { ms[w].value == v && hd(ms[w].best) == es.len() && ms[w].best is Some && ms[w].flags == ns[x.from.0 as int].flags }
           else { ms[w].value == ns[w].value && ms[w].best == ns[w].best && ms[w].flags == ns[w].flags } }),
    ensures allreal(ms, es.push(x), w), forall|i: int| 0 <= i < ns.len() && i != w && allreal(ns, es, i) ==> #[trigger] allreal(ms, es.push(x), i), graph(ms, es.push(x), r), grows(ns, es, ms, es.push(x)), inb(ms, es.push(x), w, es.len() as int),
{
    let fs = es.push(x); let f = x.from.0 as int;
    assert(nok(ns, es, r, f));
    assert(ms[f] == ns[f]);
    if w < ns.len() { assert(nok(ns, es, r, w)); }
    assert(aok(ms, w, x));
    graph_add(ns, es, r, ms, w, x);
    assert(fs[es.len() as int] == x);
    if ms[w].best is Some && hd(ms[w].best) == es.len() {
        lim_mono::<T>(0, sd(ns[f]) - dr(r));
        assert(lim::<T>(sd(ns[f]) - dr(r) + 1) == lim::<T>(sd(ns[f]) - dr(r)) + cmax::<T>());
    } else {
        let b = hd(ns[w].best);
        assert(bok(ns, es, w)); assert(inb(ns, es, w, b)); assert(eok(ns, es, w, b));
        assert(fs[b] == es[b]);
        let p = es[b].from.0 as int;
        assert(p != w); assert(ms[p] == ns[p]);
    }
    assert(nok(ms, fs, r, w));
    assert forall|e: int| #[trigger] inb(ms, fs, w, e) implies real(ms, w, fs[e]) by {
        if e != es.len() { assert(inb(ns, es, w, e)); assert(eok(ns, es, w, e)); assert(fs[e] == es[e]); assert(ms[es[e].from.0 as int] == ns[es[e].from.0 as int]); }
    }
    assert forall|i: int| 0 <= i < ns.len() && i != w && allreal(ns, es, i) implies #[trigger] allreal(ms, fs, i) by {
        assert forall|e: int| #[trigger] inb(ms, fs, i, e) implies real(ms, i, fs[e]) by {
            assert(inb(ns, es, i, e)); assert(eok(ns, es, i, e)); assert(fs[e] == es[e]); let g = es[e].from.0 as int; let _ = ns[i]; assert(ms[i] == ns[i]); assert(*ms[g].state == *ns[g].state);
        }
    }
}
/// the magnitudes met in a diagram are exact in machine arithmetic
pub proof fn vok_small<T>(ns: Seq<Node<T>>, r: SP<T>, i: int)
    requires vok(ns, r, i), model_ok::<T>(), small::<T>(r.value), dr(r) >= 0
    ensures -big() + cmax::<T>() <= ns[i].value <= big() - cmax::<T>(), 0 <= cmax::<T>() <= big()
{
    let k = sd(ns[i]) - dr(r);
    lim_mono::<T>(k, nvars::<T>());
    assert(lim::<T>(nvars::<T>() + 1) == lim::<T>(nvars::<T>()) + cmax::<T>());
}

// ---------------------------------------------------------------- updates that leave the graph alone
/// same node but for marks, cutset flag, rub and local bound
pub open spec fn alike<T>(a: Node<T>, b: Node<T>) -> bool {
    *a.state == *b.state && a.value == b.value && a.best == b.best && a.inbound == b.inbound && fx(a.flags) == fx(b.flags) && fr(a.flags) == fr(b.flags) && a.depth == b.depth
}
pub open spec fn alike_all<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>) -> bool { ns.len() == ms.len() && forall|i: int| 0 <= i < ns.len() ==> alike(ns[i], #[trigger] ms[i]) }
pub proof fn graph_alike<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, w: int)
    requires graph_but(ns, es, r, w), alike_all(ns, ms)
    ensures graph_but(ms, es, r, w), grows(ns, es, ms, es), forall|i: int, e: int| inb(ms, es, i, e) == inb(ns, es, i, e),
        w >= 0 && w < ns.len() && nok(ns, es, r, w) ==> nok(ms, es, r, w),
{
    assert forall|i: int, e: int| inb(ms, es, i, e) == inb(ns, es, i, e) by { if 0 <= i < ns.len() { assert(alike(ns[i], ms[i])); } }
    assert forall|i: int, e: int| #[trigger] inb(ms, es, i, e) implies eok(ms, es, i, e) by {
        assert(inb(ns, es, i, e)); assert(eok(ns, es, i, e)); assert(alike(ns[i], ms[i]));
        let f = es[e].from.0 as int; assert(alike(ns[f], ms[f]));
    }
    assert forall|i: int| 0 <= i < ms.len() && nok(ns, es, r, i) implies #[trigger] nok(ms, es, r, i) by {
        assert(alike(ns[i], ms[i]));
        if i > 0 { let p = bpar(ns, es, i); assert(alike(ns[p], ms[p])); assert(inb(ns, es, i, hd(ns[i].best))); }
    }
    assert forall|i: int| 0 <= i < ms.len() implies hd((#[trigger] ms[i]).inbound) < es.len() by { assert(alike(ns[i], ms[i])); let _ = ns[i]; }
}

// ---------------------------------------------------------------- layers
/// v lists the alive nodes of depth k that were not pruned, each once
pub open spec fn lay_ids<T>(ns: Seq<Node<T>>, al: ISet<int>, v: Seq<NodeId>, k: int) -> bool {
    &&& v.no_duplicates()
    &&& forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).0 < ns.len() && al.contains(v[j].0 as int) && sd(ns[v[j].0 as int]) == k
    &&& forall|i: int| 0 <= i < ns.len() && #[trigger] al.contains(i) && sd(ns[i]) == k && !fp(ns[i].flags) ==> v.contains(NodeId(i as usize))
}
pub open spec fn alive_ok<T>(ns: Seq<Node<T>>, al: ISet<int>) -> bool { al.contains(0) && forall|i: int| #[trigger] al.contains(i) ==> 0 <= i < ns.len() }
/// the alive nodes once layer k has been replaced by v
pub open spec fn relayed<T>(ns: Seq<Node<T>>, al: ISet<int>, v: Seq<NodeId>, k: int) -> ISet<int> {
    ISet::new(|i: int| 0 <= i < ns.len() && ((al.contains(i) && (sd(ns[i]) != k || fp(ns[i].flags))) || v.contains(NodeId(i as usize))))
}
/// every arc leaves an alive node above depth k
pub open spec fn froms<T>(ns: Seq<Node<T>>, es: Seq<Edge>, al: ISet<int>, k: int) -> bool {
    forall|e: int| 0 <= e < es.len() ==> al.contains((#[trigger] es[e]).from.0 as int) && es[e].from.0 < ns.len() && sd(ns[es[e].from.0 as int]) < k && !fp(ns[es[e].from.0 as int].flags)
}
/// an arc into a node in state s has a counterpart into node m
pub open spec fn redir<T>(ns: Seq<Node<T>>, es: Seq<Edge>, m: int, s: T, x: Edge) -> bool {
    exists|e: int| #[trigger] inb(ns, es, m, e) && es[e].from == x.from && forall|z: int| #[trigger] rch(s, z) ==> rch(*ns[m].state, z + x.cost - es[e].cost)
}
pub proof fn redir_grows<T>(ns: Seq<Node<T>>, es: Seq<Edge>, ms: Seq<Node<T>>, fs: Seq<Edge>, m: int, s: T, x: Edge)
    requires redir(ns, es, m, s, x), grows(ns, es, ms, fs)
    ensures redir(ms, fs, m, s, x)
{
    let e = choose|e: int| #[trigger] inb(ns, es, m, e) && es[e].from == x.from && forall|z: int| #[trigger] rch(s, z) ==> rch(*ns[m].state, z + x.cost - es[e].cost);
    inl_bound(es, hd(ns[m].inbound), e);
    assert(inb(ms, fs, m, e)); assert(fs[e] == es[e]); assert(*ms[m].state == *ns[m].state);
}
/// layer k replaced by v: whoever left has his arcs redirected to somebody who stays
pub proof fn covered_relayed<T>(ns: Seq<Node<T>>, es: Seq<Edge>, ms: Seq<Node<T>>, fs: Seq<Edge>, al: ISet<int>, v: Seq<NodeId>, k: int, lb: int, m: int, u: int)
    requires covered(ns, es, al, lb, u), grows(ns, es, ms, fs), 0 <= u < ns.len(), keepc(ns[u], ms[u]), 0 <= m < ms.len(), ms.len() <= usize::MAX,
        v.contains(NodeId(m as usize)), alive_ok(ns, al),
        forall|w: int| al.contains(w) && sd(#[trigger] ns[w]) == k && fp(ns[w].flags) ==> fp(ms[w].flags),
        forall|w: int, e: int| al.contains(w) && sd(ns[w]) == k && !fp(ns[w].flags) && !v.contains(NodeId(w as usize)) && #[trigger] inb(ns, es, w, e) ==> redir(ms, fs, m, *ns[w].state, es[e]),
    ensures covered(ms, fs, relayed(ms, al, v, k), lb, u)
{
    assert(*ms[u].state == *ns[u].state);
    let bl = relayed(ms, al, v, k);
    assert forall|y: int| #[trigger] rch(*ms[u].state, y) && !fp(ms[u].flags) && ms[u].theta + y > lb implies goes(ms, fs, bl, u, y) by {
        assert(rch(*ns[u].state, y)); assert(goes(ns, es, al, u, y));
        let (w, e) = choose|w: int, e: int| #[trigger] arc(ns, es, al, u, w, e) && rch(*ns[w].state, y - es[e].cost);
        inl_bound(es, hd(ns[w].inbound), e);
        assert(fs[e] == es[e]); assert(*ms[w].state == *ns[w].state);
        if sd(ns[w]) != k || fp(ns[w].flags) || v.contains(NodeId(w as usize)) {
            assert(inb(ms, fs, w, e)); assert(arc(ms, fs, bl, u, w, e));
        } else {
            assert(inb(ns, es, w, e));
            let x = es[e];
            let e2 = choose|e2: int| #[trigger] inb(ms, fs, m, e2) && fs[e2].from == x.from && forall|z: int| #[trigger] rch(*ns[w].state, z) ==> rch(*ms[m].state, z + x.cost - fs[e2].cost);
            assert(rch(*ms[m].state, y - x.cost + x.cost - fs[e2].cost));
            assert(arc(ms, fs, bl, u, m, e2));
        }
    }
}
// ---------------------------------------------------------------- merging
pub open spec fn relax_flags(a: NodeFlags, b: NodeFlags, same: bool, cut: bool) -> bool {
    &&& fm(a) == fm(b) && fp(a) == fp(b) && fc(b) == (fc(a) || cut)
    &&& same ==> fx(a) == fx(b) && fr(a) == fr(b) && fd(a) == fd(b)
    &&& (fx(b) ==> fx(a)) && (fr(a) ==> fr(b))
}
pub open spec fn still<T>(a: Node<T>, b: Node<T>) -> bool { *a.state == *b.state && a.rub == b.rub && a.value_bot == b.value_bot && a.depth == b.depth && a.theta == b.theta && fp(a.flags) == fp(b.flags) }
pub open spec fn still_graph<T>(a: Node<T>, b: Node<T>) -> bool { a.value == b.value && a.best == b.best && a.inbound == b.inbound }
pub open spec fn fresh<T>(n: Node<T>) -> bool { n.value == isize::MIN && n.best is None && n.inbound is None && n.rub == isize::MAX && n.theta == isize::MAX && feq(n.flags, n.flags, false, true, false, false, false, false) }

/// node m is new without arcs, or an old one of layer k now flagged as relaxed
pub proof fn merged_start<T>(ns: Seq<Node<T>>, es: Seq<Edge>, ms: Seq<Node<T>>, r: SP<T>, al: ISet<int>, k: int, m: int)
    requires graph(ns, es, r), froms(ns, es, al, k), 0 < m < ms.len(),
        ms.len() == ns.len() || (m == ns.len() && ms.len() == m + 1 && ms[m].inbound is None),
        forall|i: int| 0 <= i < ns.len() && i != m ==> #[trigger] ms[i] == ns[i],
        m < ns.len() ==> *ms[m].state == *ns[m].state && still_graph(ns[m], ms[m]) && !fx(ms[m].flags) && fr(ms[m].flags) && sd(ns[m]) == k,
    ensures graph_but(ms, es, r, m), grows(ns, es, ms, es), froms(ms, es, al, k), m < ns.len() ==> nok(ms, es, r, m),
        forall|i: int, e: int| 0 <= i < ns.len() ==> inb(ms, es, i, e) == inb(ns, es, i, e),
{
    assert forall|i: int, e: int| inb(ms, es, i, e) == (i < ns.len() && inb(ns, es, i, e)) by { if 0 <= i < ns.len() && i != m { assert(ms[i] == ns[i]); } }
    assert forall|e: int| 0 <= e < es.len() implies (#[trigger] es[e]).from.0 < ms.len() && es[e].from.0 != m && es[e].from.0 < ns.len() && hd(es[e].next) < e && al.contains(es[e].from.0 as int) && ms[es[e].from.0 as int] == ns[es[e].from.0 as int] by { let _ = es[e]; }
    assert forall|i: int, e: int| #[trigger] inb(ms, es, i, e) implies eok(ms, es, i, e) by {
        assert(inb(ns, es, i, e)); assert(eok(ns, es, i, e)); let f = es[e].from.0 as int; assert(ms[f] == ns[f]); if i != m { assert(ms[i] == ns[i]); }
    }
    assert forall|i: int| 0 <= i < ns.len() implies #[trigger] nok(ms, es, r, i) by {
        assert(nok(ns, es, r, i)); if i != m { assert(ms[i] == ns[i]); }
        if i > 0 { let b = hd(ns[i].best); assert(inb(ns, es, i, b)); assert(inb(ms, es, i, b)); let f = es[b].from.0 as int; assert(ms[f] == ns[f]); }
    }
    assert forall|i: int| 0 <= i < ms.len() implies hd((#[trigger] ms[i]).inbound) < es.len() by { if i < ns.len() && i != m { assert(ms[i] == ns[i]); } if i < ns.len() { let _ = ns[i]; } }
}
/// one arc redirected into the merged node
pub proof fn merge_step<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, ms: Seq<Node<T>>, m: int, x: Edge, k: int)
    requires graph_but(ns, es, r, m), model_ok::<T>(), 0 < m < ns.len(), ms.len() == ns.len(), dr(r) < k <= nvars::<T>(),
        forall|i: int| 0 <= i < ns.len() && i != m ==> #[trigger] ms[i] == ns[i],
        forall|i: int| 0 <= i < ns.len() ==> sd(#[trigger] ns[i]) <= k,
        sd(ns[m]) == k, *ms[m].state == *ns[m].state, fr(ns[m].flags), ms[m].flags == ns[m].flags, !fx(ns[m].flags),
        hd(ms[m].inbound) == es.len(), ms[m].inbound is Some, hd(x.next) == hd(ns[m].inbound), x.from.0 < ns.len(), sd(ns[x.from.0 as int]) + 1 == k, -cmax::<T>() <= x.cost <= cmax::<T>(),
        nok(ns, es, r, m) || (ns[m].value == isize::MIN && ns[m].best is None),
        small::<T>(r.value), dr(r) >= 0,
        ({ let v = ns[x.from.0 as int].value + x.cost;
           if v >= ns[m].value { ms[m].value == v && hd(ms[m].best) == es.len() && ms[m].best is Some } else { ms[m].value == ns[m].value && ms[m].best == ns[m].best } }),
    ensures graph_but(ms, es.push(x), r, m), nok(ms, es.push(x), r, m), grows(ns, es, ms, es.push(x)), inb(ms, es.push(x), m, es.len() as int),
        forall|i: int, e: int| 0 <= i < ns.len() && i != m ==> inb(ms, es.push(x), i, e) == inb(ns, es, i, e),
{
    let fs = es.push(x); let f = x.from.0 as int;
    assert(nok(ns, es, r, f)); assert(ms[f] == ns[f]);
    vok_small(ns, r, f);
    assert(aok(ms, m, x));
    graph_add(ns, es, r, ms, m, x);
    assert(fs[es.len() as int] == x);
    if ms[m].best is Some && hd(ms[m].best) == es.len() {
        lim_mono::<T>(0, sd(ns[f]) - dr(r));
        assert(lim::<T>(sd(ns[f]) - dr(r) + 1) == lim::<T>(sd(ns[f]) - dr(r)) + cmax::<T>());
    } else {
        let b = hd(ns[m].best);
        assert(bok(ns, es, m)); assert(inb(ns, es, m, b)); assert(eok(ns, es, m, b));
        assert(fs[b] == es[b]);
        let p = es[b].from.0 as int;
        assert(p != m); assert(ms[p] == ns[p]);
    }
}

/// the end of relax: layer k = the first nodes of cl1 (and the merged one)
pub proof fn relax_done<T>(ns0: Seq<Node<T>>, es0: Seq<Edge>, ns1: Seq<Node<T>>, ms: Seq<Node<T>>, fs: Seq<Edge>, r: SP<T>, cl0: Seq<NodeId>, cl1: Seq<NodeId>, v: Seq<NodeId>, al: ISet<int>, k: int, m: int, mw: int, rec: bool)
    requires
        grows(ns0, es0, ns1, es0), grows(ns1, es0, ms, fs), graph_but(ms, fs, r, m), nok(ms, fs, r, m), froms(ms, fs, al, k), alive_ok(ns0, al), lay_ids(ns0, al, cl0, k),
        ms.len() == ns1.len(), ns1.len() <= usize::MAX, 0 < m < ms.len(), sd(ms[m]) == k, dr(r) < k, 1 <= mw < cl1.len(),
        forall|x: NodeId| cl1.contains(x) <==> #[trigger] cl0.contains(x), cl1.no_duplicates(),
        forall|i: int| 0 <= i < ns0.len() ==> still(ns0[i], #[trigger] ms[i]) && (sd(ns0[i]) != k ==> still_graph(ns0[i], ms[i])),
        rec ==> ms.len() == ns0.len() && v == cl1.subrange(0, mw) && (exists|q: int| 0 <= q < mw - 1 && #[trigger] cl1[q] == NodeId(m as usize)),
        !rec ==> ms.len() == ns0.len() + 1 && m == ns0.len() && v == cl1.subrange(0, mw - 1).push(NodeId(m as usize)),
        forall|i: int, e: int| 0 <= i < ns0.len() && #[trigger] inb(ns0, es0, i, e) ==> inb(ns1, es0, i, e),
        forall|j: int, e: int| mw - 1 <= j < cl1.len() && #[trigger] inb(ns1, es0, cl1[j].0 as int, e) ==> redir(ms, fs, m, *ns0[cl1[j].0 as int].state, es0[e]),
    ensures
        graph(ms, fs, r), grows(ns0, es0, ms, fs), alive_ok(ms, relayed(ms, al, v, k)), froms(ms, fs, relayed(ms, al, v, k), k), lay_ids(ms, relayed(ms, al, v, k), v, k),
        forall|lb: int, u: int| al.contains(u) && sd(ns0[u]) < k && #[trigger] covered(ns0, es0, al, lb, u) ==> covered(ms, fs, relayed(ms, al, v, k), lb, u),
{
    let bl = relayed(ms, al, v, k); let mi = NodeId(m as usize);
    assert(graph(ms, fs, r)) by { assert forall|i: int| 0 <= i < ms.len() implies #[trigger] nok(ms, fs, r, i) by {} }
    grows_trans(ns0, es0, ns1, es0, ms, fs);
    assert(nok(ms, fs, r, 0));
    assert(v.contains(mi)) by {
        if rec { let q = choose|q: int| 0 <= q < mw - 1 && #[trigger] cl1[q] == mi; assert(v[q] == mi); } else { assert(v[mw - 1] == mi); }
    }
    assert forall|j: int| 0 <= j < cl1.len() implies (#[trigger] cl1[j]).0 < ns0.len() && al.contains(cl1[j].0 as int) && sd(ms[cl1[j].0 as int]) == k && sd(ns0[cl1[j].0 as int]) == k by {
        assert(cl1.contains(cl1[j])); assert(cl0.contains(cl1[j]));
        let i = choose|i: int| 0 <= i < cl0.len() && cl0[i] == cl1[j]; assert(cl0[i].0 < ns0.len());
        assert(still(ns0[cl1[j].0 as int], ms[cl1[j].0 as int]));
    }
    assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).0 < ms.len() && sd(ms[v[j].0 as int]) == k && bl.contains(v[j].0 as int) && (v[j] == cl1[j] || (!rec && v[j] == mi && j == mw - 1)) by {
        assert(v.contains(v[j]));
        if rec || j < mw - 1 { assert(v[j] == cl1[j]); }
    }
    assert(v.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < j < v.len() implies v[i] != v[j] by { assert(v[i] == cl1[i]); if v[j] == cl1[j] { } }
    }
    assert forall|i: int| 0 <= i < ms.len() && #[trigger] bl.contains(i) && sd(ms[i]) == k && !fp(ms[i].flags) implies v.contains(NodeId(i as usize)) by { }
    assert(lay_ids(ms, bl, v, k));
    assert(froms(ms, fs, bl, k)) by { assert forall|e: int| 0 <= e < fs.len() implies bl.contains((#[trigger] fs[e]).from.0 as int) && !fp(ms[fs[e].from.0 as int].flags) by { } }
    assert forall|w: int, e: int| al.contains(w) && sd(ns0[w]) == k && !fp(ns0[w].flags) && !v.contains(NodeId(w as usize)) && #[trigger] inb(ns0, es0, w, e) implies redir(ms, fs, m, *ns0[w].state, es0[e]) by {
        assert(cl0.contains(NodeId(w as usize))); assert(cl1.contains(NodeId(w as usize)));
        let q = choose|q: int| 0 <= q < cl1.len() && cl1[q] == NodeId(w as usize);
        if q < mw - 1 { assert(v[q] == cl1[q]); }
        assert(inb(ns1, es0, w, e)); assert(inb(ns1, es0, cl1[q].0 as int, e));
    }
    assert forall|lb: int, u: int| al.contains(u) && sd(ns0[u]) < k && #[trigger] covered(ns0, es0, al, lb, u) implies covered(ms, fs, bl, lb, u) by {
        assert(still(ns0[u], ms[u]));
        assert forall|w: int| al.contains(w) && sd(#[trigger] ns0[w]) == k && fp(ns0[w].flags) implies fp(ms[w].flags) by { assert(still(ns0[w], ms[w])); }
        covered_relayed(ns0, es0, ms, fs, al, v, k, lb, m, u);
    }
}
