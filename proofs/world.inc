// ---------------------------------------------------------------- the whole problem
/// the root sub-problem
pub open spec fn rt<T>() -> SP<T> { SP { state: Arc::new(s0::<T>()), value: v0::<T>(), path: Seq::empty(), ub: isize::MAX as int } }
/// some feasible solution of the problem is worth at least x
pub open spec fn wanted<T>(x: int) -> bool { rch(s0::<T>(), x - v0::<T>()) }
pub open spec fn world_ok<T>() -> bool {
    &&& obeys_key_model::<Arc<T>>() && model_ok::<T>() && sdepth(s0::<T>()) == 0
    &&& -big() <= v0::<T>() - 2 * lim::<T>(nvars::<T>() + 1) && v0::<T>() + 2 * lim::<T>(nvars::<T>() + 1) <= big()
}
pub open spec fn node_ok<T>(lb: int, q: SP<T>) -> bool {
    &&& ext(rt(), q) && q.ub <= isize::MAX
    &&& forall|y: int| #[trigger] rch(*q.state, y) && q.value + y > lb ==> q.value + y <= q.ub
}
/// a complete feasible run
pub open spec fn full<T>(f: Seq<Decision>) -> bool { feas(s0::<T>(), f) && f.len() == nvars::<T>() }
pub open spec fn worth<T>(f: Seq<Decision>) -> int { v0::<T>() + val(s0::<T>(), f) }
/// C01: r is the maximum over all feasible complete runs, None iff there is none
pub open spec fn is_opt<T>(r: Option<int>) -> bool {
    &&& r is Some ==> (exists|f: Seq<Decision>| #[trigger] full::<T>(f) && worth::<T>(f) == r->0) && forall|f: Seq<Decision>| #[trigger] full::<T>(f) ==> worth::<T>(f) <= r->0
    &&& r is None ==> forall|f: Seq<Decision>| !#[trigger] full::<T>(f)
}
/// C03: sol assigns each variable once (it is a complete feasible run, in some order) and is worth x
pub open spec fn is_sol<T>(sol: Seq<Decision>, x: int) -> bool { exists|f: Seq<Decision>| #[trigger] full::<T>(f) && worth::<T>(f) == x && sol.to_multiset() =~= f.to_multiset() }

pub proof fn run_depth<T>(s: T, f: Seq<Decision>)
    requires model_ok::<T>(), feas(s, f), sdepth(s) <= nvars::<T>()
    ensures sdepth(stt(s, f)) == sdepth(s) + f.len(), sdepth(s) + f.len() <= nvars::<T>(), -lim::<T>(f.len() as int) <= val(s, f) <= lim::<T>(f.len() as int)
    decreases f.len()
{
    if f.len() > 0 { run_depth(s, f.drop_last()); assert(indom(stt(s, f.drop_last()), f.last())); }
}
pub proof fn node_small<T>(q: SP<T>)
    requires world_ok::<T>(), ext(rt::<T>(), q)
    ensures small::<T>(q.value), 0 <= sdepth(*q.state) <= nvars::<T>()
{
    let f = choose|f: Seq<Decision>| #[trigger] ext_by(rt::<T>(), q, f);
    run_depth(s0::<T>(), f);
    lim_mono::<T>(f.len() as int, nvars::<T>() + 1);
}
pub proof fn ext_trans<T>(p: SP<T>, q: SP<T>, r: SP<T>)
    requires ext(p, q), ext(q, r)
    ensures ext(p, r)
{
    let f = choose|f: Seq<Decision>| #[trigger] ext_by(p, q, f); let g = choose|g: Seq<Decision>| #[trigger] ext_by(q, r, g);
    run_concat(rs(p), f, g);
    vstd::seq_lib::lemma_multiset_commutative(f, g);
    assert(ext_by(p, r, f + g));
}
pub proof fn ext_refl<T>(p: SP<T>)
    ensures ext(p, p)
{
    let f = Seq::<Decision>::empty(); f.to_multiset_ensures();
    assert(f.to_multiset() =~= vstd::multiset::Multiset::<Decision>::empty());
    assert(ext_by(p, p, f));
}
pub proof fn ext_reach<T>(p: SP<T>, q: SP<T>, z: int)
    requires model_ok::<T>(), ext(p, q), rch(*q.state, z), sdepth(*q.state) <= nvars::<T>()
    ensures rch(*p.state, q.value + z - p.value)
{
    let f = choose|f: Seq<Decision>| #[trigger] ext_by(p, q, f);
    run_reach(rs(p), f, nvars::<T>() - dr(q), z);
}
/// whatever q promises is worth no more than its bound
pub proof fn bounded<T>(lb: int, q: SP<T>, x: int)
    requires node_ok(lb, q), promises(q, x), x > lb
    ensures x <= q.ub
{
    let z = choose|z: int| #[trigger] rch(*q.state, z) && q.value + z >= x;
}
pub proof fn promise_wanted<T>(q: SP<T>, x: int)
    requires world_ok::<T>(), ext(rt::<T>(), q), promises(q, x)
    ensures wanted::<T>(x)
{
    let z = choose|z: int| #[trigger] rch(*q.state, z) && q.value + z >= x;
    node_small(q); ext_reach(rt::<T>(), q, z);
    reach_less(nvars::<T>(), s0::<T>(), q.value + z - v0::<T>(), x - v0::<T>());
}
pub proof fn full_wanted<T>(f: Seq<Decision>)
    requires world_ok::<T>(), full::<T>(f)
    ensures wanted::<T>(worth::<T>(f)), -big() <= worth::<T>(f) <= big()
{
    assert(reach(0, stt(s0::<T>(), f), 0));
    run_reach(s0::<T>(), f, 0, 0);
    run_depth(s0::<T>(), f); lim_mono::<T>(f.len() as int, nvars::<T>() + 1);
}
pub proof fn node_ok_root<T>()
    requires world_ok::<T>()
    ensures node_ok(isize::MIN as int, rt::<T>())
{
    ext_refl(rt::<T>()); lim_mono::<T>(nvars::<T>(), nvars::<T>() + 1);
    assert forall|y: int| #[trigger] rch(*rt::<T>().state, y) implies v0::<T>() + y <= isize::MAX by { reach_bound(nvars::<T>(), s0::<T>(), y); }
}
/// a solution of a sub-problem is a solution of the problem
pub proof fn sol_up<T>(q: SP<T>, sol: Seq<Decision>, x: int)
    requires world_ok::<T>(), ext(rt::<T>(), q), sol_of(q, sol, x)
    ensures is_sol::<T>(sol, x)
{
    let f = choose|f: Seq<Decision>| #[trigger] ext_by(rt::<T>(), q, f); let g = choose|g: Seq<Decision>| #[trigger] sol_by(q, sol, x, g);
    run_concat(s0::<T>(), f, g);
    vstd::seq_lib::lemma_multiset_commutative(f, g);
    Seq::<Decision>::empty().to_multiset_ensures();
    assert(Seq::<Decision>::empty().to_multiset() =~= vstd::multiset::Multiset::<Decision>::empty());
    assert(full::<T>(f + g) && worth::<T>(f + g) == x);
}
pub proof fn sol_wanted<T>(sol: Seq<Decision>, x: int)
    requires world_ok::<T>(), is_sol::<T>(sol, x)
    ensures wanted::<T>(x), -big() <= x <= big()
{
    let f = choose|f: Seq<Decision>| #[trigger] full::<T>(f) && worth::<T>(f) == x && sol.to_multiset() =~= f.to_multiset();
    full_wanted::<T>(f);
}

// ---------------------------------------------------------------- threads
// TRUSTED: mutual exclusion of the mutex, the condition variable and the join of scoped threads: between two critical sections of a thread the others
// only take steps that keep the invariant and the guarantee (the closure of what every critical section is proved to do)
/// a sub-problem in the hands of a thread; live: what it promises is not accounted for elsewhere yet
pub struct Job<T> { pub q: SP<T>, pub live: bool }
pub struct Wld<T> { pub og: Map<int, Job<T>>, pub done: bool, pub parked: ISet<int> }
pub trait Shr<T>: Sized {
    spec fn inv(self, h: Wld<T>, nth: int, intr: bool) -> bool;
    spec fn slb(self) -> int;
    spec fn stopped(self) -> bool;
}
pub struct Tok<C, T> {
    pub tid: int, pub nth: int, pub intr: bool, pub quiet: bool, pub locked: bool, pub my: Option<Job<T>>, pub seen: int, pub done: bool, pub stop: bool,
    pub c0: C, pub h0: Wld<T>, pub last: C, pub pk: ISet<int>, pub spawned: ISet<int>, pub exited: ISet<int>, pub ended: bool,
}
pub struct Me<C, T> { pub g: Ghost<Tok<C, T>>, pub h: Ghost<Wld<T>> }
pub open spec fn idle<T>() -> Wld<T> { Wld { og: Map::empty(), done: false, parked: ISet::empty() } }
pub open spec fn mine<C, T>(g: Tok<C, T>, h: Wld<T>) -> bool {
    &&& h.og.contains_key(g.tid) == g.my is Some && (g.my is Some ==> h.og[g.tid] == g.my->0)
    &&& !h.parked.contains(g.tid)
}
/// what one critical section may do to the others
pub open spec fn guar<C: Shr<T>, T>(g: Tok<C, T>, c: C, h: Wld<T>) -> bool {
    &&& forall|u: int| u != g.tid ==> #[trigger] h.og.contains_key(u) == g.h0.og.contains_key(u) && (h.og.contains_key(u) ==> h.og[u] == g.h0.og[u])
    &&& c.slb() >= g.c0.slb() && (g.h0.done ==> h.done) && (g.c0.stopped() ==> c.stopped())
    &&& h.parked == g.pk
}
/// same thread, later
pub open spec fn later<C, T>(a: Tok<C, T>, b: Tok<C, T>) -> bool {
    &&& b.tid == a.tid && b.nth == a.nth && b.intr == a.intr && b.quiet == a.quiet && b.locked == a.locked
    &&& b.seen >= a.seen && (a.done ==> b.done) && (a.stop ==> b.stop) && (!a.quiet ==> b.my == a.my) && b.spawned == a.spawned && b.exited == a.exited && b.ended == a.ended
}
/// same, but the job may have been accounted for
pub open spec fn later_job<C, T>(a: Tok<C, T>, b: Tok<C, T>) -> bool {
    &&& later(Tok { my: b.my, ..a }, b) && a.my is Some && b.my is Some && b.my->0.q == a.my->0.q && (b.my->0.live ==> a.my->0.live)
}
pub open spec fn later_any<C, T>(a: Tok<C, T>, b: Tok<C, T>) -> bool { later(Tok { my: b.my, ..a }, b) }
pub open spec fn unlocked<C: Shr<T>, T>(g: Tok<C, T>, h: Wld<T>, c: C) -> Tok<C, T> {
    Tok { locked: false, last: c, seen: c.slb(), done: h.done, stop: c.stopped(), my: if h.og.contains_key(g.tid) { Some(h.og[g.tid]) } else { None }, ..g }
}
#[verifier::external_body]
pub fn vp_lock<C: Shr<T>, T>(vp: &mut Me<C, T>) -> (c: C)
    requires !old(vp).g@.locked
    ensures ({ let g = old(vp).g@; let h = final(vp).h@;
        &&& final(vp).g@ == (Tok { locked: true, c0: c, h0: h, pk: h.parked, ..g })
        &&& g.quiet ==> c == g.last && h == old(vp).h@
        &&& !g.quiet ==> c.inv(h, g.nth, g.intr) && mine(g, h) && c.slb() >= g.seen && (g.done ==> h.done) && (g.stop ==> c.stopped())
    }),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_unlock<C: Shr<T>, T>(c: C, vp: &mut Me<C, T>)
    requires ({ let g = old(vp).g@; let h = old(vp).h@;
        &&& g.locked
        &&& !g.quiet ==> c.inv(h, g.nth, g.intr) && guar(g, c, h) && !h.parked.contains(g.tid) })
    ensures final(vp).h@ == old(vp).h@, final(vp).g@ == unlocked(old(vp).g@, old(vp).h@, c),
{ unimplemented!() }
/// releases, sleeps until notified, takes the mutex again; the invariant must hold with this thread asleep
#[verifier::external_body]
pub fn vp_wait<C: Shr<T>, T>(c: C, vp: &mut Me<C, T>) -> (r: C)
    requires ({ let g = old(vp).g@; let h = old(vp).h@;
        &&& g.locked && !g.quiet && c.inv(Wld { parked: h.parked.insert(g.tid), ..h }, g.nth, g.intr) && guar(g, c, h) })
    ensures ({ let g = unlocked(old(vp).g@, old(vp).h@, c); let h = final(vp).h@;
        &&& final(vp).g@ == (Tok { locked: true, c0: r, h0: h, pk: h.parked, ..g })
        &&& r.inv(h, g.nth, g.intr) && mine(g, h) && r.slb() >= g.seen && (g.done ==> h.done) && (g.stop ==> r.stopped())
    }),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_notify_all<C, T>(vp: &mut Me<C, T>)
    ensures final(vp).g@ == (Tok { pk: ISet::empty(), ..old(vp).g@ }), final(vp).h@ == (Wld { parked: ISet::empty(), ..old(vp).h@ }),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_notify_one<C, T>(vp: &mut Me<C, T>)
    ensures exists|u: int| final(vp).h@ == (Wld { parked: #[trigger] old(vp).h@.parked.remove(u), ..old(vp).h@ }), final(vp).g@ == (Tok { pk: final(vp).h@.parked, ..old(vp).g@ }),
{ unimplemented!() }
/// fork: the new thread starts from the invariant
#[verifier::external_body]
pub fn vp_spawn<C: Shr<T>, T>(vp: &mut Me<C, T>, i: usize) -> (w: Me<C, T>)
    requires ({ let g = old(vp).g@; let h = old(vp).h@;
        g.quiet && !g.locked && g.last.inv(h, g.nth, g.intr) && h.og == Map::<int, Job<T>>::empty() && h.parked == ISet::<int>::empty() && i < g.nth && !g.spawned.contains(i as int) })
    ensures ({ let g = old(vp).g@; let k = w.g@;
        &&& final(vp).h@ == old(vp).h@ && final(vp).g@ == (Tok { spawned: g.spawned.insert(i as int), ..g })
        &&& k.tid == i && k.nth == g.nth && k.intr == g.intr && !k.quiet && !k.locked && k.my is None && k.seen == g.last.slb() && k.done == old(vp).h@.done && k.stop == g.last.stopped()
    })
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_exit<C: Shr<T>, T>(vp: &mut Me<C, T>, w: Me<C, T>)
    requires !w.g@.locked, w.g@.my is None, old(vp).g@.spawned.contains(w.g@.tid)
    ensures final(vp).h@ == old(vp).h@, final(vp).g@ == (Tok { exited: old(vp).g@.exited.insert(w.g@.tid), ended: old(vp).g@.ended || w.g@.done || w.g@.stop, ..old(vp).g@ }),
{ unimplemented!() }
/// join: alone again; what a thread saw at its end still holds
#[verifier::external_body]
pub fn vp_join<C: Shr<T>, T>(vp: &mut Me<C, T>)
    requires ({ let g = old(vp).g@; g.quiet && !g.locked && g.last.inv(old(vp).h@, g.nth, g.intr) && g.exited == g.spawned })
    ensures ({ let g = old(vp).g@; let k = final(vp).g@; let h = final(vp).h@;
        &&& k == (Tok { last: k.last, ..g })
        &&& k.last.inv(h, g.nth, g.intr) && h.og == Map::<int, Job<T>>::empty() && h.parked == ISet::<int>::empty()
        &&& g.ended ==> h.done || k.last.stopped()
    })
{ unimplemented!() }
// TRUSTED: statistic counters (explored) do not overflow usize
#[verifier::external_body]
pub fn vp_count(a: usize, b: usize) -> (r: usize) { a + b }
/// `v.iter().copied().filter(f).max()`
pub fn vp_filter_max<F: Fn(&isize) -> bool>(v: &Vec<isize>, f: F) -> (r: Option<isize>)
    requires forall|x: isize| #[trigger] call_requires(f, (&x,))
    ensures
        r is None ==> forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (&#[trigger] v@[i],), false),
        r is Some ==> forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] <= r->0 || call_ensures(f, (&v@[i],), false),
        r is Some ==> v@.contains(r->0),
{
    let mut m: Option<isize> = None;
    for i in 0..v.len()
        invariant
            forall|x: isize| #[trigger] call_requires(f, (&x,)),
            m is None ==> forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] v@[j],), false),
            m is Some ==> forall|j: int| 0 <= j < i ==> #[trigger] v@[j] <= m->0 || call_ensures(f, (&v@[j],), false),
            m is Some ==> v@.contains(m->0),
    {
        let x = v[i];
        if f(&x) { match m { None => { m = Some(x); } Some(y) => { if x >= y { m = Some(x); } } } }
    }
    m
}
pub fn vp_sol(s: &Option<Vec<Decision>>) -> (r: Option<Vec<Decision>>)
    ensures r is Some == s is Some, r is Some ==> (r->0)@ == (s->0)@
{ match s { Some(v) => Some(vp_owned(v)), None => None } }
pub fn vp_owned(v: &Vec<Decision>) -> (r: Vec<Decision>) ensures r@ == v@ {
    let mut r: Vec<Decision> = Vec::new();
    for i in 0..v.len() invariant r@ =~= v@.subrange(0, i as int) { r.push(v[i]); }
    proof { assert(r@ =~= v@); }
    r
}
/// `vec![x; n]`
pub fn vp_vec<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x
{
    let mut r: Vec<T> = Vec::new();
    for i in 0..n invariant r@.len() == i, forall|j: int| 0 <= j < i ==> r@[j] == x { r.push(x); }
    r
}

// ---------------------------------------------------------------- open sub-problems, as the solvers see them
pub open spec fn held<T>(h: Wld<T>, x: int) -> bool { exists|t: int| #[trigger] h.og.contains_key(t) && h.og[t].live && promises(h.og[t].q, x) }
pub open spec fn queued<T>(has: spec_fn(SP<T>) -> bool, x: int) -> bool { exists|q: SP<T>| #[trigger] has(q) && promises(q, x) }
/// C03: the incumbent is the value of the stored solution, a real one
pub open spec fn inv_sol<T>(lb: int, sol: Option<Seq<Decision>>) -> bool { (sol is None ==> lb == isize::MIN) && (sol is Some ==> is_sol::<T>(sol->0, lb)) }
/// C04: once the search is over, the upper bound is one
pub open spec fn inv_bnd<T>(lb: int, ub: int, stop: bool, h: Wld<T>) -> bool {
    &&& stop ==> lb <= ub && forall|x: int| #[trigger] wanted::<T>(x) ==> x <= ub
    &&& h.done ==> ub == lb
}
/// C05: whoever sleeps will be woken by a thread at work
pub open spec fn inv_wake<T>(ongoing: int, h: Wld<T>) -> bool { (exists|t: int| #[trigger] h.parked.contains(t)) ==> ongoing > 0 }
/// everything else that concerns the incumbent and the open sub-problems: nothing that beats the incumbent is lost
pub open spec fn inv_open<T>(lb: int, stop: bool, ongoing: int, ubs: Seq<isize>, has: spec_fn(SP<T>) -> bool, sz: nat, h: Wld<T>, nth: int, intr: bool) -> bool {
    &&& world_ok::<T>()
    &&& forall|q: SP<T>| #[trigger] has(q) ==> node_ok(lb, q)
    &&& forall|t: int| #[trigger] h.og.contains_key(t) ==> 0 <= t < nth && node_ok(lb, h.og[t].q)
    &&& h.og.dom().finite() && ongoing == h.og.dom().len()
    &&& ubs.len() == nth && forall|t: int| 0 <= t < nth ==> #[trigger] ubs[t] == if h.og.contains_key(t) { h.og[t].q.ub } else { isize::MAX as int }
    &&& forall|q: SP<T>, t: int| #[trigger] has(q) && #[trigger] h.og.contains_key(t) ==> q.ub < isize::MAX
    &&& forall|q: SP<T>| #[trigger] has(q) && q.ub >= isize::MAX ==> sz == 1
    &&& forall|t: int, u: int| #[trigger] h.og.contains_key(t) && h.og[t].live && h.og[t].q.ub >= isize::MAX && #[trigger] h.og.contains_key(u) ==> u == t
    &&& forall|t: int| #[trigger] h.og.contains_key(t) && h.og[t].live && h.og[t].q.ub >= isize::MAX ==> sz == 0
    &&& !stop ==> forall|x: int| #[trigger] wanted::<T>(x) && x > lb ==> queued(has, x) || held(h, x)
    &&& stop ==> intr && !h.done
    &&& h.done ==> !stop && sz == 0 && ongoing == 0
}
pub open spec fn core<T>(lb: int, ub: int, sol: Option<Seq<Decision>>, stop: bool, ongoing: int, ubs: Seq<isize>, has: spec_fn(SP<T>) -> bool, sz: nat, h: Wld<T>, nth: int, intr: bool) -> bool {
    inv_open(lb, stop, ongoing, ubs, has, sz, h, nth, intr) && inv_sol::<T>(lb, sol) && inv_bnd(lb, ub, stop, h) && inv_wake(ongoing, h)
}

/// a thread without a job leaves room for one more
pub proof fn room<T>(h: Wld<T>, nth: int, tid: int)
    requires h.og.dom().finite(), forall|t: int| #[trigger] h.og.contains_key(t) ==> 0 <= t < nth, !h.og.contains_key(tid), 0 <= tid < nth
    ensures h.og.dom().len() < nth, h.og.insert(tid, h.og[tid]).dom().len() == h.og.dom().len() + 1
{
    let a = vstd::set_lib::set_int_range(0, nth);
    vstd::set_lib::lemma_int_range(0, nth);
    assert(h.og.dom().insert(tid).subset_of(a)) by { assert forall|t: int| h.og.dom().insert(tid).contains(t) implies a.contains(t) by { if t != tid { assert(h.og.contains_key(t)); } } }
    vstd::set_lib::lemma_len_subset(h.og.dom().insert(tid), a);
}

/// nothing open and the search not stopped: the incumbent is the optimum (C01)
pub proof fn finished<T>(lb: int, ub: int, sol: Option<Seq<Decision>>, stop: bool, ongoing: int, ubs: Seq<isize>, has: spec_fn(SP<T>) -> bool, sz: nat, h: Wld<T>, nth: int, intr: bool)
    requires core(lb, ub, sol, stop, ongoing, ubs, has, sz, h, nth, intr), h.done || stop, (sz == 0) == (forall|q: SP<T>| !#[trigger] has(q))
    ensures
        h.done ==> is_opt::<T>(if sol is Some { Some(lb) } else { None }) && lb == ub,
        forall|f: Seq<Decision>| #[trigger] full::<T>(f) ==> worth::<T>(f) <= ub, lb <= ub,
        sol is Some ==> is_sol::<T>(sol->0, lb), sol is None ==> lb == isize::MIN,
{
    assert forall|f: Seq<Decision>| #[trigger] full::<T>(f) implies worth::<T>(f) <= ub && (h.done ==> worth::<T>(f) <= lb && lb != isize::MIN) by {
        full_wanted::<T>(f);
        let x = worth::<T>(f);
        if h.done && x > lb { assert(queued(has, x) || held(h, x)); if held(h, x) { let t = choose|t: int| #[trigger] h.og.contains_key(t) && h.og[t].live && promises(h.og[t].q, x); assert(h.og.dom().contains(t)); assert(h.og.dom().len() > 0); } }
    }
    if sol is Some { let f = choose|f: Seq<Decision>| #[trigger] full::<T>(f) && worth::<T>(f) == lb && (sol->0).to_multiset() =~= f.to_multiset(); assert(full::<T>(f)); }
}
