//! Fixed histories: a small explicit model plus gates in the callbacks that force one particular interleaving of the threads.
use crate::{note, Info, Res};
use engineering::*;
use std::cmp::Ordering;
use std::sync::atomic::{AtomicU32, Ordering as AO};
use std::time::{Duration, Instant};

type S = (usize, &'static str);
static EV: AtomicU32 = AtomicU32::new(0);
fn set(e: u32) { EV.fetch_or(1 << e, AO::SeqCst); }
/// waits (at most 2 s) for an event; a schedule that never comes only makes the history ineffective
fn wait(e: u32, ms: u64) { let t = Instant::now(); while EV.load(AO::SeqCst) >> e & 1 == 0 && t.elapsed() < Duration::from_millis(2000) { std::thread::sleep(Duration::from_micros(200)) } std::thread::sleep(Duration::from_millis(ms)) }

/// optimum 10: r P1 a2 a3 t s e6 end. `q` gets a bound below 10 because its only good completion was left to `t`, which another thread holds
struct M;
fn arcs(s: &S) -> Vec<(&'static str, isize)> {
    match s.1 {
        "r" => vec![("P1", 0), ("P2", 0), ("R1", 0)],
        "P1" => vec![("a2", 0)], "a2" => vec![("a3", 0)], "a3" => vec![("t", 0)],
        "P2" => vec![("q", 0), ("b2", 0)], "b2" => vec![("b3", 0)], "b3" => vec![("t", 0)],
        "q" => vec![("q3", 0), ("h3", 0)], "q3" => vec![("u4", 0)], "h3" => vec![("k4", 0)],
        "M3" => vec![("t", 0), ("k4", 2)],
        "t" => vec![("s", 0), ("g5", 1), ("g5'", 1)], "u4" => vec![("s", 0)], "k4" => vec![("k5", 0)],
        "s" => vec![("e6", 0)], "k5" => vec![("f6", 1), ("j6", 1)], "g5" | "g5'" => vec![("g6", 0)],
        "e6" => vec![("end", 10)], "f6" => vec![("end", 5)], "j6" => vec![("end", 4)], "g6" => vec![("end", 2)],
        "R1" => vec![("R2", 0)], "R2" => vec![("R3", 0)], "R3" => vec![("R4", 0)], "R4" => vec![("R5", 0)], "R5" => vec![("R6", 0)], "R6" => vec![("end", 8)],
        "TOP" => if s.0 == 6 { vec![("end", 12)] } else { vec![("TOP", 5)] },
        _ => vec![],
    }
}
impl Problem for M {
    type State = S;
    fn nb_variables(&self) -> usize { 7 }
    fn initial_state(&self) -> S { (0, "r") }
    fn initial_value(&self) -> isize { 0 }
    fn next_variable(&self, l: &mut dyn Iterator<Item = &S>) -> Option<Variable> { let s = l.next()?; if s.0 < 7 { Some(Variable(s.0)) } else { None } }
    fn for_each_in_domain<F: FnMut(Decision)>(&self, var: Variable, s: &S, mut f: F) { for i in 0..arcs(s).len() { f(Decision { var, value: i as isize }) } }
    fn transition(&self, s: &S, d: Decision) -> S { (s.0 + 1, arcs(s)[d.value as usize].0) }
    fn transition_cost(&self, s: &S, d: Decision) -> isize { arcs(s)[d.value as usize].1 }
    fn estimate(&self, s: &S) -> isize { match s.1 { "P1" => 12, "P2" => 11, "R1" => 9, _ => isize::MAX } }
}
struct Rx;
impl Relaxation for Rx {
    type State = S;
    fn merge(&self, it: &mut dyn Iterator<Item = &S>) -> S {
        let v: Vec<S> = it.copied().collect();
        if v.iter().all(|s| s.1 == "q3" || s.1 == "h3") { (3, "M3") } else { (v[0].0, "TOP") }
    }
    fn relax(&self, _: &S, _: &S, _: &S, _: Decision, c: isize) -> isize { c }
}
struct Rk;
impl StateRanking for Rk {
    type State = S;
    fn compare(&self, a: &S, b: &S) -> Ordering {
        let h = |s: &S| match s.1 { "R1" => 0, "q" => 0, "q3" => 0, "h3" => 1, "s" => 0, "e6" => 0, _ => 5 };
        h(a).cmp(&h(b))
    }
}
struct W;
impl WidthHeuristic<S> for W {
    fn max_width(&self, s: &S) -> usize {
        match s.1 {
            "P2" => wait(0, 0),                       // until t has been taken
            "t" => { set(0); wait(2, 100) }           // until R1 is being processed, and then some
            "k5" => { set(1); wait(2, 200) }          // q has been processed
            "R1" => { wait(1, 0); set(2) }
            _ => {}
        }
        2
    }
}
pub fn case(_seed: u64) -> Res {
    EV.store(0, AO::SeqCst);
    note("history: thread A holds t (the owner of the optimum 10) while thread B processes q and thread C R1");
    let mut s = BarrierParallelSolver::custom(&M, &Rx, &Rk, &W, CutsetType::LastExactLayer, 3);
    s.maximize();
    if s.best_value() != Some(10) { return Err(format!("search complete with {:?} but the optimum is 10 (r P1 a2 a3 t s e6 end)", s.best_value())); }
    Ok(Info { key: 1, nontrivial: true, desc: "7-variable model, 3 threads, forced interleaving".into() })
}
