//! Random operation sequences on the two frontiers against a reference list.
use crate::{note, rng::Rng, Info, Res};
use engineering::*;
use std::cmp::Ordering;
use std::sync::Arc;
pub struct Rk(u8);
impl StateRanking for Rk { type State = u32; fn compare(&self, a: &u32, b: &u32) -> Ordering { match self.0 { 0 => Ordering::Equal, 1 => a.cmp(b), 2 => b.cmp(a), _ => (a % 3).cmp(&(b % 3)) } } }
fn sub(r: &mut Rng, states: usize, span: i64) -> SubProblem<u32> {
    let s = r.below(states) as u32;
    SubProblem { state: Arc::new(s), value: r.range(-span, span) as isize, ub: if r.chance(1, 20) { isize::MAX } else { r.range(-span, span) as isize },
        path: (0..r.below(3)).map(|_| Decision { var: Variable(r.below(4)), value: r.range(-9, 9) as isize }).collect() }
}
fn show(n: &SubProblem<u32>) -> (u32, isize, isize, Vec<Decision>) { (*n.state, n.value, n.ub, n.path.clone()) }
pub fn case(seed: u64, which: &str) -> Res {
    let mut r = Rng::new(seed);
    let rk = Rk(r.below(4) as u8);
    let states = [1, 3, 8, 40, 1000][r.below(5)];
    let lim = [10, 40, 400][r.below(3)]; let ops = 1 + r.below(lim);
    let popw = 1 + r.below(5);
    let span = [2, 10, 1000][r.below(3)];
    let mut log: Vec<String> = vec![];
    macro_rules! e { ($($a:tt)*) => {{ note(&format!("{} ops: {}", log.len(), log.join(" "))); return Err(format!($($a)*)) }} }
    macro_rules! drive { ($f:expr, $dup:expr) => {{
        let mut f = $f; let mut m: Vec<SubProblem<u32>> = vec![];
        let mut k = 0; let mut drain = false; let mut maxlen = 0;
        loop {
            k += 1; if k > ops { drain = true; }
            if r.chance(1, 97) && !drain { log.push("clear".into()); f.clear(); m.clear(); }
            else if drain || r.chance(popw, 8) {
                let p = f.pop(); log.push(format!("pop={:?}", p.as_ref().map(show)));
                match p { None => if !m.is_empty() { e!("pop yields nothing but {} nodes are left", m.len()) } else if drain { break },
                    Some(n) => {
                        let top = match m.iter().map(|x| x.ub).max() { None => e!("pop yields {:?} from an empty frontier", show(&n)), Some(t) => t };
                        if n.ub != top { e!("pop yields ub {} but the greatest ub is {}", n.ub, top) }
                        match m.iter().position(|x| show(x) == show(&n)) { None => e!("pop yields {:?} which was never (left) in the frontier", show(&n)), Some(i) => { m.swap_remove(i); } }
                    } }
            } else {
                let n = sub(&mut r, states, span); log.push(format!("push{:?}", show(&n)));
                f.push(n.clone());
                match m.iter().position(|x| $dup && x.state == n.state) { None => m.push(n), Some(i) => {
                    let ub = m[i].ub.max(n.ub); if n.value > m[i].value { m[i] = n } m[i].ub = ub; } }
            }
            maxlen = maxlen.max(m.len());
            if f.len() != m.len() { e!("len is {} but {} nodes are held", f.len(), m.len()) }
            if Frontier::is_empty(&f) != m.is_empty() { e!("is_empty is wrong with {} nodes held", m.len()) }
        }
        maxlen
    }} }
    let maxlen = if which == "nodup" { drive!(NoDupFrontier::new(&rk), true) } else { drive!(SimpleFrontier::new(&rk), false) };
    Ok(Info { key: seed, nontrivial: maxlen >= 3, desc: format!("{} operations on {} states, up to {} nodes held", log.len(), states, maxlen) })
}
