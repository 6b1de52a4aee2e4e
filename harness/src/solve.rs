//! Whole-solver runs against the brute-force oracle.
use crate::{note, rng::Rng, table::*, Info, Res};
use engineering::*;
use std::sync::atomic::{AtomicUsize, Ordering as AO};
use std::sync::Arc;

#[derive(Debug, Clone, Copy)]
pub struct Cfg { pub barrier: bool, pub cutset: CutsetType, pub width: usize, pub vary: bool, pub threads: usize, pub how: u8, pub simple: bool, pub interrupt_at: Option<usize>, pub noise: u64 }

pub struct Out { pub status: ResolutionStatus, pub value: Option<isize>, pub sol: Option<Vec<Decision>>, pub lb: isize, pub ub: isize, pub sofar: (Option<isize>, Option<Vec<Decision>>), pub polls_after: usize }

/// width heuristic: fixed, or depending on the state (both legal)
pub struct W(pub usize, pub bool);
static CALLS: AtomicUsize = AtomicUsize::new(0);
static HOLD: AtomicUsize = AtomicUsize::new(0);
/// holds some sub-problems (chosen by a hash of their state) back until other threads have taken several more (or 3 ms have passed)
fn hold(s: &St) {
    let h = HOLD.load(AO::Relaxed);
    let k = CALLS.fetch_add(1, AO::SeqCst);
    if h == 0 { return; }
    let x = Rng::new(h as u64 ^ (s.mask as u64) << 9 ^ s.depth as u64).next();
    if x % 4 != 0 { return; }
    let t = std::time::Instant::now(); let need = 1 + (x >> 8) as usize % 6;
    while CALLS.load(AO::SeqCst) < k + 1 + need && t.elapsed() < std::time::Duration::from_micros(3000) { std::thread::yield_now() }
}
impl WidthHeuristic<St> for W { fn max_width(&self, s: &St) -> usize { jitter(); hold(s); if self.1 { 1 + (self.0 + s.depth * 7 + s.mask as usize * 3) % 4 } else { self.0 } } }

pub fn run(p: &Table, r: &TRelax, o: &TRank, c: Cfg) -> Out {
    let w = W(c.width, c.vary);
    let cnt = Arc::new(AtomicUsize::new(0));
    let at = c.interrupt_at;
    // 1,000,000 polls: a search that runs away is cut, and reported as such
    let intr = move || { jitter(); let k = cnt.fetch_add(1, AO::SeqCst); at.map_or(false, |a| k >= a) || k > 1_000_000 };
    set_noise(c.noise); HOLD.store(if c.threads > 1 { (c.noise >> 20) as usize & 0xffff } else { 0 }, AO::SeqCst);
    macro_rules! go { ($s:expr, $set:expr) => {{ let mut s = $s; if $set { s = s.with_nb_threads(c.threads); }
        let status = if c.how & 4 != 0 && at.is_none() { s.maximize(); ResolutionStatus::Proved } else { s.maximize_with_interrupt(intr) };
        let o = Out { status, value: s.best_value(), sol: s.best_solution(), lb: s.best_lower_bound(), ub: s.best_upper_bound(), sofar: (s.best_value_so_far(), s.best_solution_so_far()), polls_after: 0 };
        set_noise(0); o } } }
    // how: 0 = custom(threads), 1 = custom(other) + with_nb_threads, 2 = new + with_nb_threads
    let other = 1 + (c.how as usize * 5 + c.threads * 3) % 6;
    if c.barrier { match c.how & 3 {
        0 => go!(BarrierParallelSolver::custom(p, r, o, &w, c.cutset, c.threads), false),
        1 => go!(BarrierParallelSolver::custom(p, r, o, &w, c.cutset, other), true),
        _ => go!(BarrierParallelSolver::new(p, r, o, &w, c.cutset), true) } }
    else if c.simple { let mut f = SimpleFrontier::new(o); match c.how & 3 {
        0 => go!(ParallelSolver::custom(p, r, o, &w, c.cutset, &mut f, c.threads), false),
        1 => go!(ParallelSolver::custom(p, r, o, &w, c.cutset, &mut f, other), true),
        _ => go!(ParallelSolver::new(p, r, o, &w, c.cutset, &mut f), true) } }
    else { let mut f = NoDupFrontier::new(o); match c.how & 3 {
        0 => go!(ParallelSolver::custom(p, r, o, &w, c.cutset, &mut f, c.threads), false),
        1 => go!(ParallelSolver::custom(p, r, o, &w, c.cutset, &mut f, other), true),
        _ => go!(ParallelSolver::new(p, r, o, &w, c.cutset, &mut f), true) } }
}

/// what: any of o(ptimum) s(olution) b(ounds) n(o crash / hang only)
pub fn check(t: &Table, c: Cfg, what: &str) -> Result<(), String> {
    let o = run(t, &TRelax(t), &TRank(t.rank_salt), c);
    let opt = t.opt();
    if what.contains('s') {
        if o.sofar.0 != o.value || o.sofar.1 != o.sol { return Err("best_*_so_far differs from best_*".into()); }
        if let Some(sol) = &o.sol {
            if sol.len() != t.n { return Err(format!("solution length {} != {}", sol.len(), t.n)); }
            match t.run(sol) { None => return Err(format!("the reported solution {:?} is infeasible", sol)),
                Some((_, v)) => if Some(v) != o.value { return Err(format!("the reported solution evaluates to {} but {:?} was reported", v, o.value)); } }
        } else if o.value.is_some() { return Err("value without solution".into()); }
        if o.value.is_some() && o.value != Some(o.lb) { return Err("lower bound is not the value of the best solution".into()); }
    }
    match o.status {
        ResolutionStatus::Proved => {
            if what.contains('o') { if o.value != opt { return Err(format!("search complete with {:?} but the optimum is {:?}", o.value, opt)); } }
            if what.contains('b') { if o.lb != o.ub { return Err(format!("search complete with bounds [{}, {}]", o.lb, o.ub)); } }
        }
        ResolutionStatus::Interrupted => {
            if c.interrupt_at.is_none() && (what.contains('o') || what.contains('n') || what.contains('b')) { return Err("reported as interrupted (or ran past 1,000,000 steps) although never asked to stop".into()); }
            if what.contains('b') {
                if let Some(v) = opt { if o.lb > v || o.ub < v { return Err(format!("interrupted bounds [{}, {}] exclude the optimum {}", o.lb, o.ub, v)); } }
                if o.lb > o.ub { return Err(format!("interrupted with lb {} > ub {}", o.lb, o.ub)); }
            }
        }
    }
    Ok(())
}
pub fn random_cfg(rng: &mut Rng) -> Cfg {
    Cfg { barrier: rng.chance(1, 2), cutset: if rng.chance(1, 2) { CutsetType::LastExactLayer } else { CutsetType::Frontier },
        width: 1 + rng.below(4), vary: rng.chance(1, 5), threads: 1 + if rng.chance(1, 2) { 0 } else { rng.below(4) }, how: if rng.chance(3, 5) { 0 } else { rng.below(8) as u8 }, simple: rng.chance(1, 4),
        interrupt_at: None, noise: if rng.chance(1, 2) { rng.next() | 1 } else { 0 } }
}
pub fn case(seed: u64, which: &str, what: &str) -> Res {
    let mut r = Rng::new(seed);
    let t = Table::random(&mut r);
    let mut c = random_cfg(&mut r);
    c.barrier = which == "barrier";
    if what.contains('i') { c.interrupt_at = Some(r.below(1 + r.0 as usize % 12)); }
    if what.contains('n') { c.how = r.below(8) as u8; c.threads = 1 + r.below(9); }
    let d = format!("n={} vals={} init={} opt={:?} {:?}", t.n, t.arcs[0].len(), t.init_value, t.opt(), c);
    note(&format!("{} | model: {}", d, if crate::verbose() { t.describe() } else { String::new() }));
    check(&t, c, what)?;
    Ok(Info { key: t.hash(), nontrivial: t.n >= 2 && t.opt().is_some() && t.leaves() >= 4, desc: d })
}
