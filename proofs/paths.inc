// ---------------------------------------------------------------- best paths
/// the chain of best arcs from node i back to the root is made of real transitions
pub open spec fn rpath<T>(ns: Seq<Node<T>>, es: Seq<Edge>, k: int, i: int) -> bool decreases k {
    if k <= 0 { i == 0 } else { ns[i].best is Some && real(ns, i, es[hd(ns[i].best)]) && rpath(ns, es, k - 1, bpar(ns, es, i)) }
}
/// its decisions
pub open spec fn bp<T>(ns: Seq<Node<T>>, es: Seq<Edge>, k: int, i: int) -> Seq<Decision> decreases k {
    if k <= 0 { Seq::empty() } else { bp(ns, es, k - 1, bpar(ns, es, i)).push(es[hd(ns[i].best)].decision) }
}
pub proof fn fx_path<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, i: int)
    requires graph(ns, es, r), 0 <= i < ns.len(), fx(ns[i].flags)
    ensures rpath(ns, es, sd(ns[i]) - dr(r), i)
    decreases sd(ns[i]) - dr(r)
{
    assert(nok(ns, es, r, i));
    if i > 0 {
        let b = hd(ns[i].best); assert(inb(ns, es, i, b)); assert(eok(ns, es, i, b));
        assert(!fr(ns[i].flags));
        fx_path(ns, es, r, bpar(ns, es, i));
    }
}
pub proof fn path_ext<T>(ns: Seq<Node<T>>, es: Seq<Edge>, r: SP<T>, i: int)
    requires graph(ns, es, r), 0 <= i < ns.len(), rpath(ns, es, sd(ns[i]) - dr(r), i)
    ensures ({ let f = bp(ns, es, sd(ns[i]) - dr(r), i);
        feas(*r.state, f) && stt(*r.state, f) == *ns[i].state && ns[i].value == r.value + val(*r.state, f) && f.len() == sd(ns[i]) - dr(r) })
    decreases sd(ns[i]) - dr(r)
{
    assert(nok(ns, es, r, i));
    if i > 0 {
        let b = hd(ns[i].best); assert(inb(ns, es, i, b)); assert(eok(ns, es, i, b));
        let p = bpar(ns, es, i);
        path_ext(ns, es, r, p);
        run_push(rs(r), bp(ns, es, sd(ns[p]) - dr(r), p), es[b].decision);
    }
}
pub fn vp_owned(v: &Vec<Decision>) -> (r: Vec<Decision>) ensures r@ =~= v@ {
    let mut r: Vec<Decision> = Vec::new();
    for i in 0..v.len() invariant r@ =~= v@.subrange(0, i as int) { r.push(v[i]); }
    r
}
