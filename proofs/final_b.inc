// ---------------------------------------------------------------- what a compilation leaves (barrier-based diagram)
/// node i only was touched: what else stays
pub proof fn touch_rest<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, i: int, al: ISet<int>, dd: bool, see1: ISet<Rec<T>>, see2: ISet<Rec<T>>, lb: int, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, ek: int)
    requires touched(ns, ms, i), 0 <= i < ns.len(), delx(ns, al, dd), pok(ns, see1), see1.subset_of(see2), fp(ms[i].flags) ==> by_rec(see2, ms[i]), erecs(ns, al, lb, p0, pubs, ek), fp(ms[i].flags) == fp(ns[i].flags) || sd(ns[i]) >= ek, alive_ok(ns, al)
    ensures delx(ms, al, dd), pok(ms, see2), erecs(ms, al, lb, p0, pubs, ek)
{
    assert forall|j: int| 0 <= j < ms.len() implies fd((#[trigger] ms[j]).flags) == (dd && !al.contains(j)) by { let _ = ns[j]; if j != i { assert(ms[j] == ns[j]); } }
    assert forall|j: int| 0 <= j < ms.len() && fp((#[trigger] ms[j]).flags) implies by_rec(see2, ms[j]) by {
        if j != i { assert(ms[j] == ns[j]); assert(by_rec(see1, ns[j])); let q = choose|q: Rec<T>| #[trigger] see1.contains(q) && q.s == *ns[j].state && q.th >= ns[j].theta; assert(see2.contains(q)); }
    }
    assert forall|j: int| #[trigger] al.contains(j) && sd(ns[j]) < ek implies *ms[j].state == *ns[j].state && ms[j].value == ns[j].value && fx(ms[j].flags) == fx(ns[j].flags) && fp(ms[j].flags) == fp(ns[j].flags) by { if j != i { assert(ms[j] == ns[j]); } }
    erecs_keep(ns, al, ms, al, lb, p0, pubs, ek, ek);
}
pub proof fn erecs_same<T>(ns: Seq<Node<T>>, al: ISet<int>, lb: int, p0: ISet<Rec<T>>, ek: int)
    ensures erecs(ns, al, lb, p0, p0, ek)
{ reveal(erecs); }
/// the best terminal node is worth at least x
pub open spec fn bestge<T>(ns: Seq<Node<T>>, best: Option<NodeId>, x: int) -> bool { best is Some && ns[(best->0).0 as int].value >= x }
/// a drained node of the cutset, of depth at least d, accounts for x
pub open spec fn cutx1<T>(ns: Seq<Node<T>>, cs: Seq<NodeId>, x: int, d: int, j: int) -> bool { 0 <= j < cs.len() && sd(ns[cs[j].0 as int]) >= d && fm(ns[cs[j].0 as int].flags) && accounts(ns, cs[j].0 as int, x) }
pub open spec fn cutx<T>(ns: Seq<Node<T>>, cs: Seq<NodeId>, x: int, d: int) -> bool { exists|j: int| #[trigger] cutx1(ns, cs, x, d, j) }
pub open spec fn one(b: bool) -> int { if b { 1 } else { 0 } }
/// bound on a completion y of the node n of the cutset
pub open spec fn cut_bound<T>(n: Node<T>, y: int, bv: int) -> bool { fm(n.flags) && y <= n.value_bot && y <= n.rub && n.value + y <= bv }
pub open spec fn bcut_ok<T>(ns: Seq<Node<T>>, es: Seq<Edge>, cs: Seq<NodeId>, best: Option<NodeId>, pa: Seq<Decision>, r: SP<T>, lb: int, seen: ISet<Rec<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>) -> bool {
    best is Some ==> {
        &&& dr(r) >= 0 && graph(ns, es, r) && pa =~= r.path && (best->0).0 < ns.len() && ns[(best->0).0 as int].value < isize::MAX && lb >= isize::MIN
        &&& forall|j: int| 0 <= j < cs.len() ==> (#[trigger] cs[j]).0 < ns.len() && fx(ns[cs[j].0 as int].flags) && dr(r) < sd(ns[cs[j].0 as int])
        &&& forall|j: int, y: int| 0 <= j < cs.len() && #[trigger] rch(*ns[(#[trigger] cs[j]).0 as int].state, y) && ns[cs[j].0 as int].value + y > lb ==>
                cut_bound(ns[cs[j].0 as int], y, ns[(best->0).0 as int].value as int) || exc(seen, ns[cs[j].0 as int].value + y, sd(ns[cs[j].0 as int]) + 1)
        &&& forall|y: int| #[trigger] rch(*r.state, y) && r.value + y > lb ==> cutx(ns, cs, r.value + y, dr(r) + 1) || exc(seen, r.value + y, dr(r) + 1)
        &&& forall|q: Rec<T>, z: int| #[trigger] pubs.contains(q) && !p0.contains(q) && #[trigger] rch(q.s, z) && q.th + z > lb ==> cutx(ns, cs, q.th + z, sdepth(q.s) + one(q.ex)) || exc(seen, q.th + z, sdepth(q.s) + 1)
    }
}
/// the records published, when the best value accounts for all
pub open spec fn rec_best<T>(ns: Seq<Node<T>>, best: Option<NodeId>, r: SP<T>, lb: int, seen: ISet<Rec<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>) -> bool {
    forall|q: Rec<T>, z: int| #[trigger] pubs.contains(q) && !p0.contains(q) && #[trigger] rch(q.s, z) && q.th + z > lb ==> bestge(ns, best, q.th + z) || exc(seen, q.th + z, sdepth(q.s) + 1)
}
pub open spec fn bcomp_ok<T>(ns: Seq<Node<T>>, es: Seq<Edge>, cs: Seq<NodeId>, best: Option<NodeId>, pa: Seq<Decision>, exact: bool, r: SP<T>, ty: CompilationType, lb: int, seen: ISet<Rec<T>>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>) -> bool {
    let b = (best->0).0 as int;
    &&& best is Some ==> graph(ns, es, r) && pa =~= r.path && b < ns.len() && sd(ns[b]) == nvars::<T>()
    &&& best is Some && (exact || ty != CompilationType::Relaxed) ==> rpath(ns, es, sd(ns[b]) - dr(r), b)
    &&& exact || ty != CompilationType::Restricted ==> forall|y: int| #[trigger] rch(*r.state, y) && r.value + y > lb ==> bestge(ns, best, r.value + y) || exc(seen, r.value + y, dr(r) + 1)
    &&& ty == CompilationType::Exact ==> exact
    &&& ty == CompilationType::Relaxed && !exact ==> bcut_ok(ns, es, cs, best, pa, r, lb, seen, p0, pubs)
    &&& exact || best is None ==> rec_best(ns, best, r, lb, seen, p0, pubs)
    &&& p0.subset_of(pubs) && (ty != CompilationType::Relaxed ==> pubs == p0)
}
pub open spec fn best_ok<T>(ns: Seq<Node<T>>, al: ISet<int>, k: int, best: Option<NodeId>) -> bool {
    &&& best is None ==> forall|i: int| #[trigger] al.contains(i) ==> sd(ns[i]) != k
    &&& best is Some ==> k == nvars::<T>() && (best->0).0 < ns.len() && sd(ns[(best->0).0 as int]) == k && forall|i: int| #[trigger] al.contains(i) && sd(ns[i]) == k ==> ns[(best->0).0 as int].value >= ns[i].value
}
pub proof fn top_best<T>(ns: Seq<Node<T>>, al: ISet<int>, k: int, best: Option<NodeId>, x: int)
    requires best_ok(ns, al, k, best), topped(ns, al, x), forall|i: int| 0 <= i < ns.len() ==> sd(#[trigger] ns[i]) <= k, alive_ok(ns, al), k <= nvars::<T>()
    ensures bestge(ns, best, x)
{ let t = choose|t: int| #[trigger] al.contains(t) && sd(ns[t]) == nvars::<T>() && ns[t].value >= x; assert(al.contains(t)); let _ = ns[t]; }
/// improving completions of alive nodes are accounted for by the best value, or by a record
pub proof fn bcompiled_best<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, cs: Seq<NodeId>, all: bool, on: bool, lc: int, k: int, lb: int, seen: ISet<Rec<T>>, best: Option<NodeId>)
    requires dinv(ns, es, r, al, cs, all, on, lc, k), all_cov(ns, es, al, lb, k), pok(ns, seen), best_ok(ns, al, k, best)
    ensures diag(ns, es, r, al, lb, k, seen),
        forall|u: int, y: int| #![trigger al.contains(u), rch(*ns[u].state, y)] al.contains(u) && rch(*ns[u].state, y) && ns[u].value + y > lb ==> bestge(ns, best, ns[u].value + y) || exc(seen, ns[u].value + y, xd(ns[u])),
        !fp(ns[0].flags) ==> forall|y: int| #[trigger] rch(*r.state, y) && r.value + y > lb ==> bestge(ns, best, r.value + y) || exc(seen, r.value + y, dr(r) + 1),
{
    assert(vth(ns)) by { assert forall|i: int| 0 <= i < ns.len() implies (#[trigger] ns[i]).value <= ns[i].theta by { assert(nfresh(ns, r, all, i)); } }
    assert(diag(ns, es, r, al, lb, k, seen));
    assert(nok(ns, es, r, 0)); assert(al.contains(0));
    assert forall|u: int, y: int| #![trigger al.contains(u), rch(*ns[u].state, y)] al.contains(u) && rch(*ns[u].state, y) && ns[u].value + y > lb implies bestge(ns, best, ns[u].value + y) || exc(seen, ns[u].value + y, xd(ns[u])) by {
        term_lemma(ns, es, r, al, lb, k, seen, u, y);
        if topped(ns, al, ns[u].value + y) { top_best(ns, al, k, best, ns[u].value + y); }
    }
    assert forall|y: int| #[trigger] rch(*r.state, y) && r.value + y > lb && !fp(ns[0].flags) implies bestge(ns, best, r.value + y) || exc(seen, r.value + y, dr(r) + 1) by { assert(rch(*ns[0].state, y)); }
}
/// no layer left: the records published so far are justified
pub proof fn bcompiled_early<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, lb: int, k: int, seen: ISet<Rec<T>>, best: Option<NodeId>, p0: ISet<Rec<T>>, pubs: ISet<Rec<T>>, ek: int)
    requires diag(ns, es, r, al, lb, k, seen), best_ok(ns, al, k, best), erecs(ns, al, lb, p0, pubs, ek)
    ensures rec_best(ns, best, r, lb, seen, p0, pubs), p0.subset_of(pubs)
{
    reveal(erecs);
    assert forall|q: Rec<T>, z: int| #[trigger] pubs.contains(q) && !p0.contains(q) && #[trigger] rch(q.s, z) && q.th + z > lb implies bestge(ns, best, q.th + z) || exc(seen, q.th + z, sdepth(q.s) + 1) by {
        assert(erec(ns, al, lb, q, ek));
        let n = choose|n: int| #[trigger] erec1(ns, al, q, ek, n); assert(erec1(ns, al, q, ek, n));
        assert(rch(*ns[n].state, z));
        term_lemma(ns, es, r, al, lb, k, seen, n, z);
        if topped(ns, al, ns[n].value + z) { top_best(ns, al, k, best, ns[n].value + z); }
        else { exc_less(seen, ns[n].value + z, xd(ns[n]), q.th + z, sdepth(q.s) + 1); }
    }
}
pub proof fn cut_less<T>(ns: Seq<Node<T>>, al: ISet<int>, lb: int, x: int, d: int, x2: int, d2: int)
    requires cut_has(ns, al, lb, x, d), x2 <= x, d2 <= d
    ensures cut_has(ns, al, lb, x2, d2)
{
    let c = choose|c: int| #[trigger] is_cut(ns, al, lb, c, x, d);
    let z = choose|z: int| #[trigger] rch(*ns[c].state, z) && ns[c].value + z >= x;
    assert(rch(*ns[c].state, z)); assert(accounts(ns, c, x2)); assert(is_cut(ns, al, lb, c, x2, d2));
}
/// the backward pass is over: the diagram, its cutset and its marks
pub open spec fn bfinal<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, lb: int, k: int, seen: ISet<Rec<T>>, fro: bool, kc: int) -> bool {
    &&& diag(ns, es, r, al, lb, k, seen) && swept(ns, es, al, lb, fro) && cutset_ok(ns, al, fro, kc) && kc <= k
    &&& forall|i: int| 0 <= i < ns.len() && fm((#[trigger] ns[i]).flags) ==> -big() <= ns[i].value_bot <= big()
    &&& forall|i: int| 0 <= i < ns.len() ==> (#[trigger] ns[i]).depth == sd(ns[i])
}
/// any published record: through the cutset, or a record accounts for it
pub proof fn rec_cut<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, lb: int, k: int, seen: ISet<Rec<T>>, fro: bool, kc: int, ek: int, lel: Option<usize>, p0: ISet<Rec<T>>, p1: ISet<Rec<T>>, pubs: ISet<Rec<T>>, q: Rec<T>, z: int)
    requires bfinal(ms, es, r, al, lb, k, seen, fro, kc), small::<T>(r.value), model_ok::<T>(), dr(r) >= 0, isize::MIN <= lb <= isize::MAX, bnodes(ns, ms), delx(ns, al, true),
        erecs(ns, al, lb, p0, p1, ek), frecs(ms, p1, pubs, 0, lel), ek <= kc + 1, if !fro && lel is Some { kc == lel->0 } else { kc == k },
        pubs.contains(q), !p0.contains(q), rch(q.s, z), q.th + z > lb
    ensures cut_has(ms, al, lb, q.th + z, sdepth(q.s) + one(q.ex)) || exc(seen, q.th + z, sdepth(q.s) + 1)
{
    reveal(erecs);
    if p1.contains(q) {
        assert(erec(ns, al, lb, q, ek));
        let n = choose|n: int| #[trigger] erec1(ns, al, q, ek, n); assert(erec1(ns, al, q, ek, n)); assert(0 <= n < ms.len()) by { assert(al.contains(n)); }
        assert(bnode(ns[n], ms[n]));
        assert(rch(*ms[n].state, z));
        cut_lemma(ms, es, r, al, lb, k, seen, fro, kc, n, z);
        let d = if fc(ms[n].flags) { sd(ms[n]) } else { sd(ms[n]) + 1 };
        if exc(seen, ms[n].theta + z, xd(ms[n])) { exc_less(seen, ms[n].theta + z, xd(ms[n]), q.th + z, sdepth(q.s) + 1); }
        else { cut_less(ms, al, lb, ms[n].theta + z, d, q.th + z, sdepth(q.s)); }
    } else {
        let n = choose|i: int| #[trigger] frec(ms, q, 0, lel, i); assert(frec(ms, q, 0, lel, n));
        assert(bnode(ns[n], ms[n])); assert(al.contains(n)); let _ = ms[n];
        assert(rch(*ms[n].state, z));
        cut_lemma(ms, es, r, al, lb, k, seen, fro, kc, n, z);
    }
}
/// an exact diagram: the best value accounts for what goes through the cutset
pub proof fn cut_best<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, lb: int, k: int, seen: ISet<Rec<T>>, best: Option<NodeId>, x: int, d: int)
    requires diag(ns, es, r, al, lb, k, seen), best_ok(ns, al, k, best), cut_has(ns, al, lb, x, d), x > lb
    ensures bestge(ns, best, x) || exc(seen, x, d + 1)
{
    let c = choose|c: int| #[trigger] is_cut(ns, al, lb, c, x, d);
    let z = choose|z: int| #[trigger] rch(*ns[c].state, z) && ns[c].value + z >= x;
    term_lemma(ns, es, r, al, lb, k, seen, c, z);
    if topped(ns, al, ns[c].value + z) { top_best(ns, al, k, best, ns[c].value + z); } else { exc_less(seen, ns[c].value + z, xd(ns[c]), x, d + 1); }
}
/// from the invariant of the compilation and the backward pass to bfinal
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn bfinal_ok<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, cs0: Seq<NodeId>, cs: Seq<NodeId>, all: bool, fro: bool, apx: bool, lc: int, k: int, lb: int, seen: ISet<Rec<T>>, nl: Map<Arc<T>, NodeId>, p1: ISet<Rec<T>>, pubs: ISet<Rec<T>>, lel: Option<usize>, best: Option<NodeId>)
    requires
        dinv(ns, es, r, al, cs0, all, !fro && apx, lc, k), all == !apx, all_cov(ns, es, al, lb, k), pok(ns, seen), best_ok(ns, al, k, best), layer(ns, al, nl, k), newl(ns, es, k), delx(ns, al, true), model_ok::<T>(), small::<T>(r.value), dr(r) >= 0,
        isize::MIN <= lb <= isize::MAX, locb_out(ns, ms, es, cs0, cs, lb, fro, apx, k, nl, p1, pubs, lel), ns.len() <= usize::MAX,
    ensures bfinal(ms, es, r, al, lb, k, seen, fro, if !fro && apx { lc } else { k }), best_ok(ms, al, k, best), alike_all(ns, ms)
{
    let kc = if !fro && apx { lc } else { k };
    assert(alike_all(ns, ms)) by { assert forall|i: int| 0 <= i < ns.len() implies alike(ns[i], #[trigger] ms[i]) by { assert(bnode(ns[i], ms[i])); } }
    graph_alike(ns, ms, es, r, -1);
    assert forall|u: int| 0 <= u < ns.len() implies keepc(ns[u], #[trigger] ms[u]) by { assert(bnode(ns[u], ms[u])); }
    cov_alike(ns, ms, es, r, al, lb);
    assert forall|u: int| #[trigger] al.contains(u) && sd(ms[u]) < k implies covered(ms, es, al, lb, u) by { assert(alike(ns[u], ms[u])); assert(covered(ns, es, al, lb, u)); }
    assert(pok(ms, seen)) by { assert forall|i: int| 0 <= i < ms.len() && fp((#[trigger] ms[i]).flags) implies by_rec(seen, ms[i]) by { assert(bnode(ns[i], ms[i])); assert(by_rec(seen, ns[i])); let q = choose|q: Rec<T>| #[trigger] seen.contains(q) && q.s == *ns[i].state && q.th >= ns[i].theta; assert(seen.contains(q) && q.th >= ms[i].theta); } }
    assert(vth(ms)) by { assert forall|i: int| 0 <= i < ms.len() implies (#[trigger] ms[i]).value <= ms[i].theta by { assert(bnode(ns[i], ms[i])); } }
    assert forall|i: int| 0 <= i < ms.len() implies sd(#[trigger] ms[i]) <= k && ms[i].depth == sd(ms[i]) by { assert(alike(ns[i], ms[i])); assert(nfresh(ns, r, all, i)); let _ = ns[i]; }
    assert forall|i: int| #[trigger] al.contains(i) implies sd(ms[i]) == sd(ns[i]) by { assert(alike(ns[i], ms[i])); }
    assert(last(ms, al, k));
    if best is Some { assert(alike(ns[(best->0).0 as int], ms[(best->0).0 as int])); assert forall|i: int| #[trigger] al.contains(i) && sd(ms[i]) == k implies ms[(best->0).0 as int].value >= ms[i].value by { assert(alike(ns[i], ms[i])); } }
    assert forall|i: int| #[trigger] al.contains(i) implies bclosed(ms, es, fro, i) && (fc(ms[i].flags) ==> ms[i].theta <= cutth(ms[i], lb)) by { assert(bnode(ns[i], ms[i])); assert(!fd(ns[i].flags)); assert(!fd(ms[i].flags)); }
    assert forall|i: int| #[trigger] al.contains(i) && sd(ms[i]) == k implies bterm1(ms[i], fro, apx) by { assert(alike(ns[i], ms[i])); let _ = ns[i]; assert(nl.contains_key(ns[i].state)); }
    assert(swept(ms, es, al, lb, fro)) by { assert forall|i: int| #[trigger] al.contains(i) && sd(ms[i]) == nvars::<T>() implies fm(ms[i].flags) && ms[i].value_bot >= 0 && (fro && fx(ms[i].flags) ==> fc(ms[i].flags)) by { let _ = ms[i]; } }
    assert forall|i: int| 0 <= i < ms.len() && fm((#[trigger] ms[i]).flags) implies -big() <= ms[i].value_bot <= big() by {
        assert(bnode(ns[i], ms[i])); assert(nok(ns, es, r, i)); let q = nvars::<T>() - sd(ns[i]); lim_mono::<T>(0, q); lim_mono::<T>(q, nvars::<T>() + 1);
    }
    if !fro {
        assert forall|i: int| #[trigger] al.contains(i) implies (sd(ms[i]) == kc && !fp(ms[i].flags) ==> fc(ms[i].flags) && fx(ms[i].flags)) && (fc(ms[i].flags) ==> sd(ms[i]) == kc) by {
            assert(bnode(ns[i], ms[i])); assert(nfresh(ns, r, all, i)); let _ = ms[i]; let _ = ns[i];
            if apx { if sd(ns[i]) == lc && !fp(ns[i].flags) { assert(cs0.contains(NodeId(i as usize))); let j = choose|j: int| 0 <= j < cs0.len() && cs0[j] == NodeId(i as usize); assert(cs0[j].0 == i); } }
        }
    }
}
/// an inexact relaxed diagram: the cutset
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn bcompiled_cut<T>(ns: Seq<Node<T>>, ms: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, al: ISet<int>, cs0: Seq<NodeId>, cs: Seq<NodeId>, all: bool, fro: bool, apx: bool, lc: int, k: int, lb: int, seen: ISet<Rec<T>>, nl: Map<Arc<T>, NodeId>, p0: ISet<Rec<T>>, p1: ISet<Rec<T>>, pubs: ISet<Rec<T>>, lel: Option<usize>, best: Option<NodeId>, pa: Seq<Decision>, exact: bool)
    requires
        dinv(ns, es, r, al, cs0, all, !fro && apx, lc, k), all == !apx, all_cov(ns, es, al, lb, k), pok(ns, seen), best_ok(ns, al, k, best), layer(ns, al, nl, k), newl(ns, es, k), delx(ns, al, true), model_ok::<T>(), small::<T>(r.value), dr(r) >= 0,
        isize::MIN <= lb <= isize::MAX, locb_out(ns, ms, es, cs0, cs, lb, fro, apx, k, nl, p1, pubs, lel), ns.len() <= usize::MAX, pa =~= r.path, !fp(ns[0].flags),
        erecs(ns, al, lb, p0, p1, if !fro && apx { lc + 1 } else { k }), if !fro && apx { lel == Some(lc as usize) && 0 <= lc <= usize::MAX } else { lel is None },
        !exact ==> apx, apx ==> k > dr(r),
    ensures
        !exact ==> bcut_ok(ms, es, cs, best, pa, r, lb, seen, p0, pubs), exact || best is None ==> rec_best(ms, best, r, lb, seen, p0, pubs), p0.subset_of(pubs),
        forall|y: int| #[trigger] rch(*r.state, y) && r.value + y > lb ==> bestge(ms, best, r.value + y) || exc(seen, r.value + y, dr(r) + 1),
{
    let kc = if !fro && apx { lc } else { k }; let ek = if !fro && apx { lc + 1 } else { k };
    bfinal_ok(ns, ms, es, r, al, cs0, cs, all, fro, apx, lc, k, lb, seen, nl, p1, pubs, lel, best);
    bcompiled_best(ns, es, r, al, cs0, all, !fro && apx, lc, k, lb, seen, best);
    reveal(erecs);
    assert(nok(ns, es, r, 0)); assert(al.contains(0));
    assert(bnode(ns[0], ms[0]));
    if best is Some { assert(alike(ns[(best->0).0 as int], ms[(best->0).0 as int])); assert(nok(ns, es, r, (best->0).0 as int)); vok_small(ns, r, (best->0).0 as int); }
    graph_alike(ns, ms, es, r, -1);
    assert forall|q: Rec<T>, z: int| #[trigger] pubs.contains(q) && !p0.contains(q) && #[trigger] rch(q.s, z) && q.th + z > lb implies cut_has(ms, al, lb, q.th + z, sdepth(q.s) + one(q.ex)) || exc(seen, q.th + z, sdepth(q.s) + 1) by {
        rec_cut(ns, ms, es, r, al, lb, k, seen, fro, kc, ek, lel, p0, p1, pubs, q, z);
    }
    assert forall|q: Rec<T>, z: int| #[trigger] pubs.contains(q) && !p0.contains(q) && #[trigger] rch(q.s, z) && q.th + z > lb implies bestge(ms, best, q.th + z) || exc(seen, q.th + z, sdepth(q.s) + 1) by {
        if cut_has(ms, al, lb, q.th + z, sdepth(q.s) + one(q.ex)) {
            cut_best(ms, es, r, al, lb, k, seen, best, q.th + z, sdepth(q.s) + one(q.ex));
            if !bestge(ms, best, q.th + z) { exc_less(seen, q.th + z, sdepth(q.s) + one(q.ex) + 1, q.th + z, sdepth(q.s) + 1); }
        }
    }
    if !exact && best is Some {
        // the nodes of the cutset
        assert forall|j: int| 0 <= j < cs.len() implies (#[trigger] cs[j]).0 < ms.len() && fx(ms[cs[j].0 as int].flags) && dr(r) < sd(ms[cs[j].0 as int]) && al.contains(cs[j].0 as int) && !fp(ms[cs[j].0 as int].flags) by {
            let c = cs[j].0 as int;
            if fro {
                assert(okcut(ns, es, c, k)); assert(alike(ns[c], ms[c])); assert(bnode(ns[c], ms[c]));
                if sd(ns[c]) == k { let _ = ns[c]; assert(nl.contains_key(ns[c].state)); }
                else {
                    let (w, e) = choose|w: int, e: int| #[trigger] inb(ns, es, w, e) && es[e].from.0 == c && !fx(ns[w].flags);
                    assert(eok(ns, es, w, e)); assert(nfresh(ns, r, all, w)); assert(0 <= e < es.len()); let _ = es[e];
                }
            } else { assert(cs[j] == cs0[j]); assert(bnode(ns[c], ms[c])); }
        }
        assert forall|c: int| #[trigger] al.contains(c) && fc(ms[c].flags) implies cs.contains(NodeId(c as usize)) by {
            if !fro { assert(fc(ns[c].flags)); assert(cs0.contains(NodeId(c as usize))); }
        }
        assert forall|x: int, d: int| #[trigger] cut_has(ms, al, lb, x, d) implies cutx(ms, cs, x, d) by {
            let c = choose|c: int| #[trigger] is_cut(ms, al, lb, c, x, d);
            assert(al.contains(c)); let j = choose|j: int| 0 <= j < cs.len() && cs[j] == NodeId(c as usize); assert(cutx1(ms, cs, x, d, j));
        }
        assert forall|j: int, y: int| 0 <= j < cs.len() && #[trigger] rch(*ms[(#[trigger] cs[j]).0 as int].state, y) && ms[cs[j].0 as int].value + y > lb implies
                cut_bound(ms[cs[j].0 as int], y, ms[(best->0).0 as int].value as int) || exc(seen, ms[cs[j].0 as int].value + y, sd(ms[cs[j].0 as int]) + 1) by {
            let c = cs[j].0 as int; let x = ms[c].value + y;
            assert(bnode(ns[c], ms[c])); assert(nfresh(ns, r, all, c)); assert(rch(*ns[c].state, y));
            mark_lemma(ms, es, r, al, lb, k, seen, fro, c, y);
            if exc(seen, ms[c].theta + y, xd(ms[c])) { exc_less(seen, ms[c].theta + y, xd(ms[c]), x, sd(ms[c]) + 1); }
            assert(bestge(ns, best, ns[c].value + y) || exc(seen, ns[c].value + y, xd(ns[c])));
        }
        assert forall|y: int| #[trigger] rch(*r.state, y) && r.value + y > lb implies cutx(ms, cs, r.value + y, dr(r) + 1) || exc(seen, r.value + y, dr(r) + 1) by {
            assert(rch(*ms[0].state, y));
            cut_lemma(ms, es, r, al, lb, k, seen, fro, kc, 0, y);
            let x = ms[0].theta + y; let d = if fc(ms[0].flags) { sd(ms[0]) } else { sd(ms[0]) + 1 };
            if exc(seen, x, xd(ms[0])) { exc_less(seen, x, xd(ms[0]), r.value + y, dr(r) + 1); }
            else {
                if fc(ms[0].flags) { assert(cs.contains(NodeId(0usize))); let j = choose|j: int| 0 <= j < cs.len() && cs[j] == NodeId(0usize); assert(sd(ms[cs[j].0 as int]) > dr(r)); }
                cut_less(ms, al, lb, x, d, r.value + y, dr(r) + 1);
            }
        }
    }
}
