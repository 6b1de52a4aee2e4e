#![feature(const_destruct)]
#![feature(allocator_api)]
#![allow(warnings)]
@@include common.inc
use std::collections::HashMap;
use std::hash::Hash;
use vstd::std_specs::hash::*;
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::map::group_map_lemmas, vstd::set::group_set_lemmas};
pub type FxHashMap<K, V> = HashMap<K, V>;
@@include subproblem.inc
@@include model.inc
@@include model_ok.inc
@@item src/mdd/with_all.rs struct NodeId
@@derive Clone, Copy
@@end
@@include mdd_traits.inc
@@include dd_contract.inc
@@include frontier_contract.inc
@@include frontier_trait.inc
@@include world.inc
@@include dd_all_sig.inc
@@item src/prelude.rs enum ResolutionStatus
@@end

@@item src/solver/parallel.rs struct Critical
@@rewrite {{struct Critical<'a, F: Frontier>}} => {{struct Critical<F: Frontier>}}
@@rewrite {{fringe: &'a mut F}} => {{fringe: F}}
@@end
@@item src/solver/parallel.rs struct Shared
@@rewrite {{critical: Mutex<Critical<'a, F>>}} => {{critical: Critical<F>}}
@@rewrite {{monitor: Condvar}} => {{monitor: ()}}
@@end
@@item src/solver/parallel.rs enum WorkLoad
@@end
@@item src/solver/parallel.rs struct ParallelSolver
@@end

pub open spec fn bsol(s: Option<Vec<Decision>>) -> Option<Seq<Decision>> { match s { Some(s) => Some(s@), None => None } }
impl<F: Frontier> Shr<F::State> for Critical<F> {
    open spec fn inv(self, h: Wld<F::State>, nth: int, intr: bool) -> bool {
        core(self.best_lb as int, self.best_ub as int, bsol(self.best_sol), self.interrupted, self.ongoing as int, self.upper_bounds@, self.fringe.has(), self.fringe.sz(), h, nth, intr)
    }
    open spec fn slb(self) -> int { self.best_lb as int }
    open spec fn stopped(self) -> bool { self.interrupted }
}
/// nothing was searched yet
pub open spec fn fresh<F: Frontier>(c: Critical<F>) -> bool {
    &&& c.fringe.sz() == 0 && c.ongoing == 0 && c.best_lb == isize::MIN && c.best_ub == isize::MAX && c.best_sol is None && !c.interrupted
    &&& forall|i: int| 0 <= i < c.upper_bounds@.len() ==> #[trigger] c.upper_bounds@[i] == isize::MAX
}
pub open spec fn started<C: Shr<T>, T>(vp: Me<C, T>) -> bool {
    let g = vp.g@;
    g.quiet && !g.locked && g.last.inv(vp.h@, g.nth, g.intr) && vp.h@.og == Map::<int, Job<T>>::empty() && vp.h@.parked == ISet::<int>::empty()
}
/// what handing out this workload means
pub open spec fn granted<T>(h: Wld<T>, tid: int, w: WorkLoad<T>) -> Wld<T> {
    match w {
        WorkLoad::Complete => Wld { done: true, ..h },
        WorkLoad::WorkItem { node } => Wld { og: h.og.insert(tid, Job { q: sp(node), live: true }), ..h },
        _ => h,
    }
}
pub proof fn over<F: Frontier>(c: Critical<F>, h: Wld<F::State>, nth: int, intr: bool)
    requires c.inv(h, nth, intr), (c.fringe.sz() == 0) == (forall|q: SP<F::State>| !#[trigger] (c.fringe.has())(q))
    ensures ({ let sol = bsol(c.best_sol);
        h.done || c.interrupted ==> {
            &&& h.done ==> is_opt::<F::State>(if sol is Some { Some(c.best_lb as int) } else { None }) && c.best_lb == c.best_ub
            &&& forall|f: Seq<Decision>| #[trigger] full::<F::State>(f) ==> worth::<F::State>(f) <= c.best_ub
            &&& c.best_lb <= c.best_ub && (sol is None ==> c.best_lb == isize::MIN) && (sol is Some ==> is_sol::<F::State>(sol->0, c.best_lb as int))
        } })
{
    if h.done || c.interrupted {
        finished(c.best_lb as int, c.best_ub as int, bsol(c.best_sol), c.interrupted, c.ongoing as int, c.upper_bounds@, c.fringe.has(), c.fringe.sz(), h, nth, intr);
    }
}
/// every completion of q is no better than what is known
pub open spec fn settled<T>(q: SP<T>, seen: int) -> bool { forall|y: int| #[trigger] rch(*q.state, y) ==> q.value + y <= seen }

// ---- the open sub-problems while a cutset is handed over
pub open spec fn kept<T>(h0: spec_fn(SP<T>) -> bool, h: spec_fn(SP<T>) -> bool) -> bool { forall|q: SP<T>| #[trigger] h0(q) ==> exists|r: SP<T>| #[trigger] h(r) && dominates(r, q) }
pub open spec fn has_state<T>(h: spec_fn(SP<T>) -> bool, n: SP<T>) -> bool { exists|r: SP<T>| #[trigger] h(r) && r.state == n.state && r.value >= n.value }
pub open spec fn covered<T>(qs: Seq<SP<T>>, i: int, lb: int, ub: int, h: spec_fn(SP<T>) -> bool) -> bool { forall|j: int| 0 <= j < i && #[trigger] qs[j].ub > lb && ub > lb ==> has_state(h, qs[j]) }
pub proof fn tighten<T>(r: SP<T>, k: int, lb: int, n0: SP<T>, n: SP<T>)
    requires world_ok::<T>(), node_ok(lb, r), k <= lb, sub_ok(r, k, n0), n == (SP { ub: if r.ub <= n0.ub { r.ub } else { n0.ub }, ..n0 })
    ensures node_ok(lb, n), n.ub < isize::MAX
{
    let t = rt::<T>();
    let f = choose|f: Seq<Decision>| #[trigger] ext_by(r, n0, f); assert(ext_by(r, n, f));
    ext_trans(t, r, n); node_small(n);
    assert forall|y: int| #[trigger] rch(*n.state, y) && n.value + y > lb implies n.value + y <= n.ub by { ext_reach(r, n, y); }
}
pub proof fn pushed<T>(h0: spec_fn(SP<T>) -> bool, h1: spec_fn(SP<T>) -> bool, n: SP<T>, lb: int)
    requires push_rel(h0, h1, n), node_ok(lb, n), n.ub < isize::MAX, forall|q: SP<T>| #[trigger] h0(q) ==> node_ok(lb, q) && q.ub < isize::MAX
    ensures forall|q: SP<T>| #[trigger] h1(q) ==> node_ok(lb, q) && q.ub < isize::MAX, kept(h0, h1)
{
    assert forall|r: SP<T>| #[trigger] h1(r) implies node_ok(lb, r) && r.ub < isize::MAX by {
        let (q, b) = choose|q: SP<T>, b: SP<T>| #[trigger] origin(h0, n, q) && #[trigger] origin(h0, n, b) && from2(r, q, b);
        let f = choose|f: Seq<Decision>| #[trigger] ext_by(rt(), q, f); assert(ext_by(rt(), r, f));
    }
}
pub proof fn kept_trans<T>(h0: spec_fn(SP<T>) -> bool, h1: spec_fn(SP<T>) -> bool, h2: spec_fn(SP<T>) -> bool)
    requires kept(h0, h1), kept(h1, h2)
    ensures kept(h0, h2)
{
    assert forall|q: SP<T>| #[trigger] h0(q) implies exists|r: SP<T>| #[trigger] h2(r) && dominates(r, q) by {
        let a = choose|r: SP<T>| #[trigger] h1(r) && dominates(r, q);
        let b = choose|r: SP<T>| #[trigger] h2(r) && dominates(r, a);
        assert(dominates(b, q));
    }
}
pub proof fn covered_more<T>(qs: Seq<SP<T>>, i: int, lb: int, ub: int, h0: spec_fn(SP<T>) -> bool, h1: spec_fn(SP<T>) -> bool, n: SP<T>)
    requires covered(qs, i, lb, ub, h0), kept(h0, h1), exists|r: SP<T>| #[trigger] h1(r) && dominates(r, n), 0 <= i < qs.len(), n.state == qs[i].state, n.value == qs[i].value
    ensures covered(qs, i + 1, lb, ub, h1)
{
    assert forall|j: int| 0 <= j < i + 1 && #[trigger] qs[j].ub > lb && ub > lb implies has_state(h1, qs[j]) by {
        if j < i {
            let a = choose|r: SP<T>| #[trigger] h0(r) && r.state == qs[j].state && r.value >= qs[j].value;
            let b = choose|r: SP<T>| #[trigger] h1(r) && dominates(r, a);
        } else {
            let b = choose|r: SP<T>| #[trigger] h1(r) && dominates(r, n);
        }
    }
}
/// what the job promised is queued now
pub proof fn handed<T>(q: SP<T>, k: int, lb: int, qs: Seq<SP<T>>, h: spec_fn(SP<T>) -> bool, x: int)
    requires world_ok::<T>(), node_ok(lb, q), k <= lb, cut_out(q, k, qs), covered(qs, qs.len() as int, lb, q.ub, h), promises(q, x), x > lb
    ensures queued(h, x)
{
    let z = choose|z: int| #[trigger] rch(*q.state, z) && q.value + z >= x;
    let j = choose|j: int| 0 <= j < qs.len() && promises(#[trigger] qs[j], q.value + z);
    let s = qs[j];
    let y = choose|y: int| #[trigger] rch(*s.state, y) && s.value + y >= q.value + z;
    assert(sub_ok(q, k, s));
    assert(s.ub > lb);
    let r = choose|r: SP<T>| #[trigger] h(r) && r.state == s.state && r.value >= s.value;
    assert(rch(*r.state, y) && r.value + y >= x);
}

impl<'a, P, R, O, W, F> ParallelSolver<'a, P, R, O, W, F>
where
    P: Problem + Send + Sync + 'a,
    P::State: Eq + PartialEq + Hash + Clone,
    R: Relaxation<State = P::State> + Send + Sync + 'a,
    O: StateRanking<State = P::State> + Send + Sync + 'a,
    W: WidthHeuristic<P::State> + Send + Sync + 'a,
    F: Frontier<State = P::State> + Send + Sync + 'a,
{
    pub open spec fn ready(self, vp: Me<Critical<F>, P::State>) -> bool {
        let g = vp.g@;
        &&& g.quiet && !g.locked && g.last == self.shared.critical && fresh(g.last) && vp.h@ == idle::<P::State>() && g.nth == self.nb_threads && g.nth >= 1 && g.last.upper_bounds@.len() == g.nth
        &&& g.spawned == ISet::<int>::empty() && g.exited == ISet::<int>::empty() && !g.ended && world_ok::<P::State>()
    }

@@fn src/solver/parallel.rs {{ParallelSolver}} custom
@@sig {{fringe: &'a mut F}} => {{fringe: F}}
@@rewrite* {{Mutex::new($...x)}} => {{$x}}
@@rewrite* {{Condvar::new()}} => {{()}}
@@rewrite* {{vec![$x; $n]}} => {{vp_vec($x, $n)}}
@@spec
    requires $p6.sz() == 0
    ensures fresh(ret.shared.critical), ret.nb_threads == $p7, ret.shared.critical.upper_bounds@.len() == ret.nb_threads,
@@end
@@fn src/solver/parallel.rs {{ParallelSolver}} new
@@sig {{fringe: &'a mut F}} => {{fringe: F}}
@@rewrite* {{num_cpus::get()}} => {{vp_cpus()}}
@@spec
    requires $p6.sz() == 0
    ensures fresh(ret.shared.critical), ret.nb_threads >= 1, ret.shared.critical.upper_bounds@.len() == ret.nb_threads,
@@end
@@fn src/solver/parallel.rs {{ParallelSolver}} with_nb_threads
@@sig {{mut self,}} => {{self,}}
@@rewrite* {{self}} => {{vp_self}}
@@entry
    let mut vp_self = self;
@@rewrite* {{.critical.get_mut()}} => {{.critical}}
@@rewrite* {{vec![$x; $n]}} => {{vp_vec($x, $n)}}
@@spec
    requires fresh(self.shared.critical)
    ensures fresh(ret.shared.critical), ret.nb_threads == $p1, ret.shared.critical.upper_bounds@.len() == ret.nb_threads,
@@end

@@fn src/solver/parallel.rs {{ParallelSolver}} root_node
@@rewrite* {{vec![]}} => {{Vec::new()}}
@@spec
    ensures sp(ret) == rt::<P::State>(),
@@end
@@fn src/solver/parallel.rs {{ParallelSolver}} initialize
@@sig {{(&self)}} => {{(&self, vp: &mut Me<Critical<F>, P::State>)}}
@@locks
@@spec
    requires self.ready(*old(vp))
    ensures started(*final(vp)), !final(vp).h@.done, !final(vp).g@.last.interrupted, ({ let g = old(vp).g@; let k = final(vp).g@;
        k.nth == g.nth && k.intr == g.intr && k.spawned == g.spawned && k.exited == g.exited && k.ended == g.ended }),
@@before {{vp_unlock(vp_g, vp);}}
    proof {
        let r = rt::<P::State>(); let hs = vp_g.fringe.has(); let c0 = vp.g@.c0; let h = vp.h@;
        c0.fringe.nothing();
        ext_refl(r); node_ok_root::<P::State>();
        assert forall|q: SP<P::State>| #[trigger] hs(q) implies q == r by {
            let (a, b) = choose|a: SP<P::State>, b: SP<P::State>| #[trigger] origin(c0.fringe.has(), r, a) && #[trigger] origin(c0.fringe.has(), r, b) && from2(q, a, b);
            assert(q.path =~= r.path);
        }
        assert forall|x: int| #[trigger] wanted::<P::State>(x) implies queued(hs, x) by {
            let q = choose|q: SP<P::State>| #[trigger] hs(q) && dominates(q, r);
            assert(rch(*q.state, x - v0::<P::State>()));
            assert(promises(q, x));
        }
        assert(h.og.dom() =~= Set::<int>::empty());
    }
@@end

@@fn src/solver/parallel.rs {{ParallelSolver}} best_lb
@@param vp: &mut Me<Critical<F>, P::State>
@@locks
@@spec
    requires !old(vp).g@.locked, !old(vp).g@.quiet,
    ensures later(old(vp).g@, final(vp).g@), ret == final(vp).g@.seen,
@@end

@@fn src/solver/parallel.rs {{ParallelSolver}} maybe_update_best
@@param vp: &mut Me<Critical<F>, P::State>, Ghost(vp_k): Ghost<Ask<P::State>>
@@locks
@@rewrite* {{.best_solution()}} => {{.best_solution(Ghost(vp_k))}}
@@spec
    requires !old(vp).g@.locked, !old(vp).g@.quiet, old(vp).g@.my is Some, $p1.holds(vp_k), $p1.wf(), ext(rt::<P::State>(), vp_k.r), vp_k.ty != CompilationType::Relaxed || $p1.ex(), world_ok::<P::State>(),
    ensures later(old(vp).g@, final(vp).g@), $p1.bv() is Some ==> $p1.bv()->0 <= final(vp).g@.seen,
@@before {{vp_unlock($g, vp);}}
    proof {
        let c0 = vp.g@.c0; let h = vp.h@; let tid = vp.g@.tid;
        assert(h.og.dom().contains(tid)); assert(h.og.dom().len() > 0);
        if $g.best_lb != c0.best_lb {
            sol_up::<P::State>(vp_k.r, ($g.best_sol->0)@, $g.best_lb as int);
            sol_wanted::<P::State>(($g.best_sol->0)@, $g.best_lb as int);
        }
        assert(inv_sol::<P::State>($g.best_lb as int, bsol($g.best_sol))); // C03
        assert(inv_bnd($g.best_lb as int, $g.best_ub as int, $g.interrupted, h)); // C04
    }
@@end

@@fn src/solver/parallel.rs {{ParallelSolver}} enqueue_cutset
@@param vp: &mut Me<Critical<F>, P::State>, Ghost(vp_k): Ghost<Ask<P::State>>
@@rewrite? {{let fringe = &mut critical.fringe;}} => {{}}
@@rewrite* {{fringe.push(}} => {{critical.fringe.push(}}
@@rewrite {{$m:id.drain_cutset(|mut $n:id| { $...b });}} => {{let mut vp_q = Vec::new(); $m.drain_cutset(&mut vp_q, Ghost(vp_k)); for vp_i in 0..vp_q.len() { let mut $n = vp_q[vp_i].clone(); $b }}}
@@rewrite* {{.min(}} => {{.vp_min(}}
@@locks
@@spec
    requires ({ let g = old(vp).g@;
        !g.locked && !g.quiet && g.my == Some(Job { q: vp_k.r, live: true }) && vp_k.lb <= g.seen && node_ok(g.seen, vp_k.r) }),
        $p3 == vp_k.r.ub, old($p1).holds(vp_k), vp_k.ty == CompilationType::Relaxed, !old($p1).ex(), world_ok::<P::State>(),
    ensures later_job(old(vp).g@, final(vp).g@), !final(vp).g@.my->0.live,
@@loop {{for vp_i in 0..vp_q.len() {}}
    invariant
        best_lb == critical.best_lb, $p3 == vp_k.r.ub,
        world_ok::<P::State>(), vp.g@.locked, critical == (Critical { fringe: critical.fringe, ..vp.g@.c0 }),
        node_ok(best_lb as int, vp_k.r), vp_k.lb <= best_lb, cut_out(vp_k.r, vp_k.lb, subs(vp_q@)),
        forall|q: SP<P::State>| #[trigger] (critical.fringe.has())(q) ==> node_ok(best_lb as int, q) && q.ub < isize::MAX,
        kept(vp.g@.c0.fringe.has(), critical.fringe.has()),
        covered(subs(vp_q@), vp_i as int, best_lb as int, $p3 as int, critical.fringe.has()),
@@after {{let mut $n:id = vp_q[vp_i].clone();}}
        let ghost vp_h0 = critical.fringe.has(); let ghost vp_n0 = sp($n);
        proof { assert(vp_n0 == subs(vp_q@)[vp_i as int]); }
@@endof {{for vp_i in 0..vp_q.len() {}}
        proof {
            let n = SP { ub: isize::mn($p3, vp_q[vp_i as int].ub) as int, ..vp_n0 };
            tighten(vp_k.r, vp_k.lb, best_lb as int, vp_n0, n);
            if n.ub > best_lb {
                pushed(vp_h0, critical.fringe.has(), n, best_lb as int);
                kept_trans(vp.g@.c0.fringe.has(), vp_h0, critical.fringe.has());
                covered_more(subs(vp_q@), vp_i as int, best_lb as int, $p3 as int, vp_h0, critical.fringe.has(), n);
            }
        }
@@before {{vp_unlock($g, vp);}}
    proof {
        let c0 = vp.g@.c0; let h0 = vp.h@; let tid = vp.g@.tid; let q = vp_k.r;
        assert(h0.og.dom().contains(tid)); assert(h0.og.dom().len() > 0);
        vp.h@ = Wld { og: h0.og.insert(tid, Job { q: q, live: false }), ..h0 };
        let h = vp.h@;
        assert(h.og.dom() =~= h0.og.dom());
        let hs = $g.fringe.has(); let lb = $g.best_lb as int;
        assert forall|x: int| #[trigger] wanted::<P::State>(x) && x > lb && !c0.interrupted implies queued(hs, x) || held(h, x) by {
            if queued(c0.fringe.has(), x) {
                let a = choose|a: SP<P::State>| #[trigger] (c0.fringe.has())(a) && promises(a, x);
                let b = choose|b: SP<P::State>| #[trigger] hs(b) && dominates(b, a);
                assert(promises(b, x));
            } else {
                let t = choose|t: int| #[trigger] h0.og.contains_key(t) && h0.og[t].live && promises(h0.og[t].q, x);
                if t == tid { handed(q, vp_k.lb, lb, subs(vp_q@), hs, x); }
                else { assert(h.og.contains_key(t) && h.og[t] == h0.og[t]); }
            }
        }
    }
@@end

@@fn src/solver/parallel.rs {{ParallelSolver}} process_one_node
@@param vp: &mut Me<Critical<F>, P::State>
@@locks
@@rewrite* {{Self::maybe_update_best($...a)}} => {{Self::maybe_update_best($a, Ghost(vp_k))}}
@@rewrite* {{Self::enqueue_cutset($...a)}} => {{Self::enqueue_cutset($a, Ghost(vp_k))}}
@@rewrite* {{$x:id += $m.get_explored();}} => {{$x = vp_count($x, $m.get_explored());}}
@@entry
    let ghost mut vp_k = Ask { r: sp($p3), ty: CompilationType::Exact, lb: 0 };
    let ghost vp_n = sp($p3);
    proof { node_small(vp_n); }
@@after* {{Self::maybe_update_best($...a);}}
    proof { assert(vp_k.r == vp_n); if mdd.ex() { assert forall|y: int| #[trigger] rch(*vp_n.state, y) implies vp_n.value + y <= vp.g@.seen by { } } }
@@after* {{$m:id.compile(&$c:id);}}
    proof { vp_k = Ask { r: sp($c.residual), ty: $c.comp_type, lb: $c.best_lb as int }; }
@@spec
    requires ({ let g = old(vp).g@; !g.locked && !g.quiet && g.my == Some(Job { q: sp($p3), live: true }) && node_ok(g.seen, sp($p3)) }), world_ok::<P::State>(),
    ensures later_job(old(vp).g@, final(vp).g@), final(vp).g@.my->0.live ==> settled(sp($p3), final(vp).g@.seen),
@@end

@@fn src/solver/parallel.rs {{ParallelSolver}} notify_node_finished
@@param vp: &mut Me<Critical<F>, P::State>
@@locks
@@rewrite* {{$s:id.monitor.notify_all();}} => {{vp_notify_all(vp);}}
@@rewrite* {{$s:id.monitor.notify_one();}} => {{vp_notify_one(vp);}}
@@rewrite* {{$x:id.explored_dd += $y;}} => {{$x.explored_dd = vp_count($x.explored_dd, $y);}}
@@spec
    requires ({ let g = old(vp).g@; !g.locked && !g.quiet && g.my is Some && $p2 == g.tid && (g.my->0.live ==> settled(g.my->0.q, g.seen)) }),
    ensures later_any(old(vp).g@, final(vp).g@), final(vp).g@.my is None,
@@after {{let mut $g:id = vp_lock(vp);}}
    let ghost vp_h0 = vp.h@;
    proof { assert(vp_h0.og.dom().contains(vp.g@.tid)); assert(vp_h0.og.dom().len() > 0); }
@@before {{vp_unlock($g, vp);}}
    proof {
        let c0 = vp.g@.c0; let tid = vp.g@.tid; let hs = $g.fringe.has();
        vp.h@ = Wld { og: vp_h0.og.remove(tid), ..vp.h@ };
        let h = vp.h@;
        assert(h.og.dom() =~= vp_h0.og.dom().remove(tid));
        assert forall|x: int| #[trigger] wanted::<P::State>(x) && x > $g.best_lb && !$g.interrupted implies queued(hs, x) || held(h, x) by {
            if !queued(c0.fringe.has(), x) {
                let t = choose|t: int| #[trigger] vp_h0.og.contains_key(t) && vp_h0.og[t].live && promises(vp_h0.og[t].q, x);
                if t != tid { assert(h.og.contains_key(t) && h.og[t] == vp_h0.og[t]); }
            }
        }
        assert(inv_wake($g.ongoing as int, h)); // C05
    }
@@end

@@fn src/solver/parallel.rs {{ParallelSolver}} get_workload
@@sig {{interrupt: I}} => {{interrupt: &I}}
@@param vp: &mut Me<Critical<F>, P::State>
@@rewrite* {{interrupt()}} => {{(*interrupt)()}}
@@rewrite? {{$v:id.upper_bounds.iter().copied().filter(|$x:id| $...c).max()}} => {{vp_filter_max(&$v.upper_bounds, |$x: &isize| -> (vp_b: bool) ensures vp_b == ($c) { $c })}}
@@rewrite* {{.max(}} => {{.vp_max(}}
@@rewrite* {{$s:id.monitor.wait(&mut $c:id);}} => {{$c = vp_wait($c, vp);}}
@@rewrite* {{$x:id.explored += 1;}} => {{$x.explored = vp_count($x.explored, 1);}}
@@locks
@@spec
    requires ({ let g = old(vp).g@; !g.locked && !g.quiet && g.my is None && $p2 == g.tid && g.tid < g.nth && call_requires(*$p3, ()) && (g.intr || !call_ensures(*$p3, (), true)) }),
    ensures later_any(old(vp).g@, final(vp).g@), ({ let g = final(vp).g@; match ret {
        WorkLoad::Complete => g.my is None && g.done,
        WorkLoad::Interruption => g.my is None && g.stop,
        WorkLoad::Starvation => g.my is None,
        WorkLoad::WorkItem { node } => g.my == Some(Job { q: sp(node), live: true }) && node_ok(g.seen, sp(node)),
    } }),
@@after {{let mut $g:id = vp_lock(vp);}}
    proof { $g.fringe.nothing(); room(vp.h@, vp.g@.nth, vp.g@.tid); assert($g.upper_bounds.len() == $g.upper_bounds@.len()); }
@@before* {{vp_unlock($g, vp);}}
    proof {
        let h0 = vp.h@; let c0 = vp.g@.c0; let tid = vp.g@.tid; let hs = $g.fringe.has();
        vp.h@ = granted(h0, tid, vp_r); $g.fringe.nothing();
        let h = vp.h@; let lb = $g.best_lb as int; let h0s = c0.fringe.has();
        if vp_r is WorkItem { assert(h.og.dom() =~= h0.og.dom().insert(tid)); }
        if h0.og.dom().len() == 0 { assert(h0.og.dom() =~= Set::<int>::empty()); }
        if !c0.interrupted {
            assert forall|x: int| #[trigger] wanted::<P::State>(x) && x > lb implies queued(hs, x) || held(h, x) || vp_r is Interruption by {
                if queued(h0s, x) {
                    let q = choose|q: SP<P::State>| #[trigger] h0s(q) && promises(q, x);
                    bounded(lb, q, x);
                    if !hs(q) && vp_r is WorkItem { assert(h.og.contains_key(tid)); assert(h.og[tid].q == q); assert(held(h, x)); }
                } else {
                    let t = choose|t: int| #[trigger] h0.og.contains_key(t) && h0.og[t].live && promises(h0.og[t].q, x);
                    assert(h.og.contains_key(t) && h.og[t] == h0.og[t]);
                }
            }
            if vp_r is Interruption {
                assert forall|x: int| #[trigger] wanted::<P::State>(x) implies x <= $g.best_ub by {
                    if x > lb {
                        if queued(h0s, x) {
                            let q = choose|q: SP<P::State>| #[trigger] h0s(q) && promises(q, x);
                            bounded(lb, q, x);
                        } else {
                            let t = choose|t: int| #[trigger] h0.og.contains_key(t) && h0.og[t].live && promises(h0.og[t].q, x);
                            bounded(lb, h0.og[t].q, x);
                            assert(h0.og.dom().contains(t)); assert(h0.og.dom().len() > 0);
                            assert(c0.upper_bounds@[t] == h0.og[t].q.ub);
                            if h0.og[t].q.ub >= isize::MAX {
                                assert forall|u: int| 0 <= u < c0.upper_bounds@.len() implies #[trigger] c0.upper_bounds@[u] == isize::MAX by { if h0.og.contains_key(u) { assert(u == t); } }
                            }
                        }
                    }
                }
            }
        }
        assert(inv_bnd($g.best_lb as int, $g.best_ub as int, $g.interrupted, h)); // C04
    }
@@end

@@fn src/solver/parallel.rs {{Solver for ParallelSolver}} maximize
@@param vp: &mut Me<Critical<F>, P::State>
@@rewrite* {{|| false}} => {{&|| -> (vp_b: bool) ensures !vp_b { false }}}
@@locks
@@rewrite {{$s:id.spawn(move || { $...b });}} => {{let mut vp_w = vp_spawn(vp, i); { let vp = &mut vp_w; $b } vp_exit(vp, vp_w);}}
@@rewrite {{std::thread::scope(|$s:id| { $...b });}} => {{$b vp_join(vp);}}
@@attr verifier::exec_allows_no_decreases_clause
@@spec
    requires old(self).ready(*old(vp)), !old(vp).g@.intr
    ensures started(*final(vp)), final(vp).h@.done,
@@loop {{for $i:id in 0..self.nb_threads {}}
    invariant
        started(*vp), vp.g@.nth == self.nb_threads, vp.g@.exited == vp.g@.spawned, !vp.g@.intr, world_ok::<P::State>(),
        forall|t: int| #[trigger] vp.g@.spawned.contains(t) ==> 0 <= t < $i, $i > 0 ==> vp.g@.ended, vp.g@.nth >= 1,
@@loop {{loop {}}
    invariant ({ let g = vp.g@; !g.locked && !g.quiet && g.my is None && g.tid == i && g.nth == self.nb_threads && i < g.nth && !g.intr }), world_ok::<P::State>(),
    ensures vp.g@.done || vp.g@.stop,
@@end

@@fn src/solver/parallel.rs {{Solver for ParallelSolver}} best_solution
@@param vp: &mut Me<Critical<F>, P::State>
@@locks
@@rewrite* {{$g:id.best_sol.clone()}} => {{vp_sol(&$g.best_sol)}}
@@spec
    requires started(*old(vp)),
    ensures started(*final(vp)), final(vp).h@ == old(vp).h@, final(vp).g@.last == old(vp).g@.last, ret is Some == final(vp).g@.last.best_sol is Some,
        ret is Some ==> is_sol::<P::State>((ret->0)@, final(vp).g@.last.best_lb as int),
@@end
@@fn src/solver/parallel.rs {{Solver for ParallelSolver}} best_value
@@param vp: &mut Me<Critical<F>, P::State>
@@locks
@@rewrite* {{$g:id.best_sol.as_ref().map(|_sol| $...x)}} => {{match $g.best_sol { Some(_) => Some($x), None => None }}}
@@spec
    requires started(*old(vp)),
    ensures started(*final(vp)), final(vp).h@ == old(vp).h@, final(vp).g@.last == old(vp).g@.last, ret is Some == final(vp).g@.last.best_sol is Some, ret is Some ==> ret->0 == final(vp).g@.last.best_lb,
        final(vp).h@.done ==> is_opt::<P::State>(match ret { Some(x) => Some(x as int), None => None }),
@@before {{vp_unlock($g, vp);}}
    proof { $g.fringe.nothing(); over($g, vp.h@, vp.g@.nth, vp.g@.intr); }
@@end

@@fn src/solver/parallel.rs {{InterruptibleSolver for ParallelSolver}} maximize_with_interrupt
@@param vp: &mut Me<Critical<F>, P::State>
@@sig? {{I: Fn() -> bool + Send + Sync + 'static}} => {{I: Fn() -> bool}}
@@locks
@@rewrite {{$s:id.spawn(move || { $...b });}} => {{let mut vp_w = vp_spawn(vp, i); { let vp = &mut vp_w; $b } vp_exit(vp, vp_w);}}
@@rewrite {{std::thread::scope(|$s:id| { $...b });}} => {{$b vp_join(vp);}}
@@attr verifier::exec_allows_no_decreases_clause
@@attr verifier::loop_isolation(false)
@@attr verifier::allow_complex_invariants
@@spec
    requires old(self).ready(*old(vp)), old(vp).g@.intr, call_requires($p1, ()),
    ensures started(*final(vp)), ret is Proved ==> final(vp).h@.done, ret is Interrupted ==> final(vp).g@.last.interrupted,
@@loop {{for $i:id in 0..self.nb_threads {}}
    invariant
        started(*vp), vp.g@.nth == self.nb_threads, vp.g@.exited == vp.g@.spawned, vp.g@.intr, world_ok::<P::State>(), call_requires($p1, ()),
        forall|t: int| #[trigger] vp.g@.spawned.contains(t) ==> 0 <= t < $i, $i > 0 ==> vp.g@.ended, vp.g@.nth >= 1,
@@loop {{loop {}}
    invariant ({ let g = vp.g@; !g.locked && !g.quiet && g.my is None && g.tid == i && g.nth == self.nb_threads && i < g.nth && g.intr }), world_ok::<P::State>(), call_requires($p1, ()),
    ensures vp.g@.done || vp.g@.stop,
@@end
@@fn src/solver/parallel.rs {{InterruptibleSolver for ParallelSolver}} best_value_so_far
@@param vp: &mut Me<Critical<F>, P::State>
@@locks
@@spec
    requires started(*old(vp)),
    ensures started(*final(vp)), final(vp).h@ == old(vp).h@, final(vp).g@.last == old(vp).g@.last, ret is Some == final(vp).g@.last.best_sol is Some, ret is Some ==> ret->0 == final(vp).g@.last.best_lb,
        final(vp).h@.done ==> is_opt::<P::State>(match ret { Some(x) => Some(x as int), None => None }),
@@end
@@fn src/solver/parallel.rs {{InterruptibleSolver for ParallelSolver}} best_solution_so_far
@@param vp: &mut Me<Critical<F>, P::State>
@@locks
@@spec
    requires started(*old(vp)),
    ensures started(*final(vp)), final(vp).h@ == old(vp).h@, final(vp).g@.last == old(vp).g@.last, ret is Some == final(vp).g@.last.best_sol is Some,
        ret is Some ==> is_sol::<P::State>((ret->0)@, final(vp).g@.last.best_lb as int),
@@end
@@fn src/solver/parallel.rs {{InterruptibleSolver for ParallelSolver}} best_lower_bound
@@param vp: &mut Me<Critical<F>, P::State>
@@locks
@@spec
    requires started(*old(vp)), old(vp).h@.done || old(vp).g@.last.interrupted,
    ensures started(*final(vp)), final(vp).h@ == old(vp).h@, final(vp).g@.last == old(vp).g@.last, ret == final(vp).g@.last.best_lb, ret <= final(vp).g@.last.best_ub,
        ret == isize::MIN || exists|f: Seq<Decision>| #[trigger] full::<P::State>(f) && worth::<P::State>(f) == ret,
        final(vp).h@.done ==> ret == final(vp).g@.last.best_ub,
@@before {{vp_unlock($g, vp);}}
    proof { $g.fringe.nothing(); over($g, vp.h@, vp.g@.nth, vp.g@.intr); }
@@end
@@fn src/solver/parallel.rs {{InterruptibleSolver for ParallelSolver}} best_upper_bound
@@param vp: &mut Me<Critical<F>, P::State>
@@locks
@@spec
    requires started(*old(vp)), old(vp).h@.done || old(vp).g@.last.interrupted,
    ensures started(*final(vp)), final(vp).h@ == old(vp).h@, final(vp).g@.last == old(vp).g@.last, ret == final(vp).g@.last.best_ub, forall|f: Seq<Decision>| #[trigger] full::<P::State>(f) ==> worth::<P::State>(f) <= ret,
@@before {{vp_unlock($g, vp);}}
    proof { $g.fringe.nothing(); over($g, vp.h@, vp.g@.nth, vp.g@.intr); }
@@end
}
}
fn main() {}
