//! Checks of one decision diagram compilation against the brute-force oracle.
use crate::{note, rng::Rng, table::*, Info, Res};
use engineering::*;
use parking_lot::RwLock;
use std::sync::Arc;

pub struct DdOut { pub exact: bool, pub best: Option<isize>, pub sol: Option<Vec<Decision>>, pub cutset: Vec<SubProblem<St>> }
fn compile<D: DecisionDiagram<State = St>>(d: &mut D, t: &Table, ct: CompilationType, w: usize, root: &SubProblem<St>, lb: isize) -> DdOut {
    let inp = CompilationInput { comp_type: ct, max_width: w, problem: t, relaxation: &TRelax(t), ranking: &TRank(t.rank_salt), residual: root.clone(), best_lb: lb };
    d.compile(&inp);
    let mut cs = vec![];
    let (exact, best, sol) = (d.is_exact(), d.best_value(), d.best_solution());
    if ct == CompilationType::Relaxed { d.drain_cutset(|s| cs.push(s)); }
    DdOut { exact, best, sol, cutset: cs }
}
pub fn random_root(t: &Table, rng: &mut Rng) -> SubProblem<St> {
    let mut s = t.initial_state(); let mut v = t.init_value; let mut path = vec![];
    let stop = rng.below(t.n + 1);
    while s.depth < stop {
        let m = t.moves(s.depth, s.mask);
        if m.is_empty() { break; }
        let x = m[rng.below(m.len())];
        path.push(Decision { var: Variable(t.order[s.depth]), value: x.0 });
        s = St { depth: s.depth + 1, mask: x.1 }; v += x.2;
    }
    if rng.chance(1, 2) { path.reverse(); }
    let ub = t.b(&s).map_or(isize::MAX, |b| b + v + rng.below(5) as isize);
    SubProblem { state: Arc::new(s), value: v, path, ub: if rng.chance(1, 3) { isize::MAX } else { ub } }
}
/// which: all | barrier; what: any of r(elaxed bound) e(xactness) f(easible paths) c(utset)
pub fn case(seed: u64, which: &str, what: &str) -> Res {
    let mut rng = Rng::new(seed); let rng = &mut rng;
    let t = &Table::random(rng);
    let root = random_root(t, rng);
    let opt = t.b(&root.state).map(|b| b + root.value);
    let lb = match rng.below(3) { 0 => isize::MIN, 1 => opt.unwrap_or(0) - rng.below(8) as isize, _ => opt.unwrap_or(0) + rng.below(3) as isize };
    let w = 1 + rng.below(4);
    let cut = if rng.chance(1, 2) { CutsetType::LastExactLayer } else { CutsetType::Frontier };
    let bar = which == "barrier";
    let ct = [CompilationType::Exact, CompilationType::Relaxed, CompilationType::Restricted, CompilationType::Relaxed][rng.below(4)];
    let tag = format!("{:?} {:?} bar={} w={} lb={} root={:?} opt={:?}", ct, cut, bar, w, lb, root, opt);
    note(&format!("{} | model: {}", tag, if crate::verbose() { t.describe() } else { String::new() }));
    // the diagram object is reused: a first compilation must leave no trace in the second
    let reuse = rng.chance(1, 3);
    let (w0, root0) = (1 + rng.below(3), random_root(t, rng));
    let ct0 = [CompilationType::Exact, CompilationType::Relaxed, CompilationType::Restricted][rng.below(3)];
    let o = if bar { let bs = Arc::new((0..=t.n).map(|_| RwLock::new(Default::default())).collect::<Vec<_>>());
        let mut d = Barrier::<St>::new(bs.clone(), cut); if reuse { compile(&mut d, t, ct0, w0, &root0, isize::MIN); for b in bs.iter() { b.write().clear() } }
        compile(&mut d, t, ct, w, &root, lb) }
        else { let mut d = All::<St>::new(cut); if reuse { compile(&mut d, t, ct0, w0, &root0, isize::MIN); } compile(&mut d, t, ct, w, &root, lb) };
    let e = |m: String| Err(format!("{} | best={:?} exact={} cutset={:?}", m, o.best, o.exact, o.cutset));
    let good = opt.filter(|v| *v > lb);
    if o.best.is_some() != o.sol.is_some() { return e("a value without a solution (or the reverse)".into()); }
    if what.contains('f') && (ct != CompilationType::Relaxed || o.exact) {
        if let (Some(b), Some(s)) = (o.best, &o.sol) { if b > lb {
            match t.run(s) { Some((_, v)) if s.len() == t.n => if v != b { return e(format!("the solution evaluates to {} instead of {}", v, b)); }, _ => return e("the solution is infeasible".into()) }
            if opt.map_or(true, |v| b > v) { return e(format!("value {} beats the optimum {:?}", b, opt)); }
        } }
    }
    if what.contains('r') && ct == CompilationType::Relaxed { if let Some(g) = good { if o.best.map_or(true, |b| b < g) { return e(format!("the relaxed bound is below the optimum {}", g)); } } }
    if what.contains('e') {
        if o.exact { if let Some(g) = good { if o.best != Some(g) { return e(format!("claims exactness but misses the optimum {}", g)); } } }
        if ct == CompilationType::Exact && !o.exact { return e("a full compilation is not reported exact".into()); }
    }
    if what.contains('c') && ct == CompilationType::Relaxed && !o.exact {
        let mut cover: Option<isize> = None;
        for c in &o.cutset {
            match t.run(&c.path) { Some((s, v)) if s == *c.state && v == c.value => {}, _ => return e(format!("the path of cutset node {:?} does not lead to its state and value", c)) }
            if !(c.path.len() > root.path.len()) { return e("cutset node no deeper than the root".into()); }
            if !root.path.iter().all(|d| c.path.contains(d)) { return e("cutset node forgets decisions of the root".into()); }
            if let Some(b) = t.b(&c.state) { let tot = b + c.value;
                if tot > lb && c.ub < tot { return e(format!("the bound of cutset node {:?} is below its best completion {}", c, tot)); }
                cover = Some(cover.map_or(tot, |x| x.max(tot))); }
        }
        if let Some(g) = good { if cover.map_or(true, |c| c < g) { return e(format!("no cutset node leads to the optimum {}", g)); } }
    }
    Ok(Info { key: t.hash() ^ seed, nontrivial: t.n >= 2 && good.is_some() && (!o.exact || ct == CompilationType::Exact || o.best.is_some()), desc: tag })
}
