//! Random finite dynamic programs ("table problems") with a brute-force oracle.
//!
//! A state is a depth plus a set of row ids (a bit mask). The transition of a mask is the union of the
//! images of its rows and its cost the best cost among them, so a larger mask dominates a smaller one
//! and the union is an admissible merge, by construction. Real states may have several rows, so a
//! merge can yield a state that also exists for real.
use crate::rng::Rng;
use engineering::*;
use std::cmp::Ordering;
use std::sync::atomic::Ordering as AO;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct St { pub depth: usize, pub mask: u32 }

#[derive(Debug, Clone)]
pub struct Arc_ { pub val: isize, pub to: u32, pub cost: isize }

#[derive(Debug)]
pub struct Table {
    pub n: usize,
    /// arcs[depth][id] = outgoing arcs
    pub arcs: Vec<Vec<Vec<Arc_>>>,
    pub init_value: isize,
    /// best[depth][mask] = best completion value of the (possibly relaxed) state, None = infeasible
    pub best: Vec<Vec<Option<isize>>>,
    /// rub slack per (depth, mask); None = isize::MAX
    pub slack: Vec<Vec<Option<isize>>>,
    /// 0: next_variable yields None on an empty layer; 1: yields Some(Variable(0)) on an empty layer
    pub empty_var: bool,
    /// merge adds these extra ids (per depth): still an admissible relaxation
    pub merge_extra: Vec<u32>,
    /// relax adds this much to the cost (>= 0): still admissible
    pub relax_bonus: isize,
    pub rank_salt: u64,
    pub order: Vec<usize>,
}

impl Table {
    pub fn random(rng: &mut Rng) -> Table {
        let big = rng.chance(1, 12);
        let n = if big { 5 + rng.below(6) } else { 1 + rng.below(6) };
        let width = if big { 4 + rng.below(4) } else { 1 + rng.below(5) };
        let vals = if big { 2 + rng.below(3) } else { 1 + rng.below(4) };
        let lo = -(rng.below(8) as i64); let hi = lo + 1 + rng.below(12) as i64;
        let dead = rng.below(4);
        // chance (in 12) that an arc leads to a state of several rows: such a real state can dominate others
        let wide = if rng.chance(1, 2) { 0 } else { 1 + rng.below(8) };
        let mut arcs = vec![];
        for _d in 0..n {
            let mut layer = vec![];
            for _ in 0..width {
                let mut out = vec![];
                for v in 0..vals {
                    if rng.chance(dead, 8) { continue; }
                    let mut to = 1u32 << rng.below(width);
                    while rng.chance(wide, 12) { to |= 1 << rng.below(width); }
                    out.push(Arc_ { val: v as isize, to, cost: rng.range(lo, hi) as isize });
                }
                layer.push(out);
            }
            arcs.push(layer);
        }
        let init_value = match rng.below(3) { 0 => 0, 1 => rng.range(0, 20) as isize, _ => rng.range(-20, 0) as isize };
        let slack_mode = rng.below(4);
        let empty_var = rng.chance(1, 2);
        let nmask = 1usize << width;
        let merge_extra = (0..=n).map(|_| if rng.chance(1, 6) { rng.below(nmask) as u32 } else { 0 }).collect();
        let relax_bonus = if rng.chance(1, 5) { rng.below(4) as isize } else { 0 };
        let mut slack = vec![];
        for _ in 0..=n {
            slack.push((0..nmask).map(|_| match slack_mode { 0 => None, 1 => Some(0), 2 => Some(rng.below(6) as isize), _ => if rng.chance(1, 3) { None } else { Some(rng.below(3) as isize) } }).collect());
        }
        let mut order: Vec<usize> = (0..n).collect();
        if rng.chance(1, 2) { for i in (1..n).rev() { let j = rng.below(i + 1); order.swap(i, j); } }
        let mut t = Table { n, arcs, init_value, best: vec![], slack, empty_var, merge_extra, relax_bonus, rank_salt: rng.next(), order };
        t.fill(nmask);
        t
    }
    pub fn fill(&mut self, nmask: usize) {
        self.best = vec![vec![None; nmask]; self.n + 1];
        for m in 0..nmask { self.best[self.n][m] = if m == 0 { None } else { Some(0) }; }
        for d in (0..self.n).rev() {
            for m in 0..nmask {
                let mut b: Option<isize> = None;
                for (v, to, c) in self.moves(d, m as u32) {
                    let _ = v;
                    if let Some(x) = self.best[d + 1][to as usize] { b = Some(b.map_or(x + c, |y| y.max(x + c))); }
                }
                self.best[d][m] = b;
            }
        }
    }
    pub fn moves(&self, d: usize, mask: u32) -> Vec<(isize, u32, isize)> {
        let mut out: Vec<(isize, u32, isize)> = vec![];
        for (id, arcs) in self.arcs[d].iter().enumerate() {
            if mask >> id & 1 == 0 { continue; }
            for a in arcs {
                if let Some(o) = out.iter_mut().find(|o| o.0 == a.val) { o.1 |= a.to; o.2 = o.2.max(a.cost); }
                else { out.push((a.val, a.to, a.cost)); }
            }
        }
        out
    }
    pub fn describe(&self) -> String { format!("variables {:?}, initial value {}, arcs[depth][row] {:?}, bound slack {:?}, merge_extra {:?}, relax_bonus {}", self.order, self.init_value, self.arcs, self.slack, self.merge_extra, self.relax_bonus) }
    pub fn hash(&self) -> u64 { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); self.init_value.hash(&mut h); for l in &self.arcs { for r in l { for a in r { (a.val, a.to, a.cost).hash(&mut h) } 7u8.hash(&mut h) } } h.finish() }
    /// number of decision sequences (capped)
    pub fn leaves(&self) -> usize {
        let mut cur: std::collections::HashMap<u32, usize> = Default::default(); cur.insert(1, 1);
        for d in 0..self.n { let mut nx: std::collections::HashMap<u32, usize> = Default::default(); for (m, c) in cur { for (_, to, _) in self.moves(d, m) { let e = nx.entry(to).or_insert(0); *e = (*e + c).min(1 << 40); } } cur = nx; }
        cur.values().sum()
    }
    pub fn opt(&self) -> Option<isize> { self.best[0][1].map(|b| b + self.init_value) }
    /// best completion of a state
    pub fn b(&self, s: &St) -> Option<isize> { self.best[s.depth][s.mask as usize] }
    /// Runs the decisions from the initial state; None if one is infeasible / out of domain
    pub fn run(&self, path: &[Decision]) -> Option<(St, isize)> {
        let mut s = self.initial_state(); let mut v = self.init_value;
        // decisions are a set: one per variable; order them by the variable order of the model
        for d in 0..path.len() {
            let dec = path.iter().find(|x| x.var.0 == self.order[d])?;
            let (_, to, c) = self.moves(s.depth, s.mask).into_iter().find(|m| m.0 == dec.value)?;
            s = St { depth: s.depth + 1, mask: to }; v += c;
        }
        Some((s, v))
    }
}
static NOISE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn set_noise(x: u64) { NOISE.store(x, AO::SeqCst) }
thread_local! { static LOCAL: std::cell::Cell<u64> = std::cell::Cell::new(0); }
/// called from every callback: perturbs the thread schedule
pub fn jitter() {
    let n = NOISE.load(AO::Relaxed);
    if n == 0 { return; }
    let x = LOCAL.with(|l| { let mut v = l.get(); if v == 0 { v = { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); std::thread::current().id().hash(&mut h); h.finish() } } ; v = v.wrapping_mul(6364136223846793005).wrapping_add(n | 1); l.set(v | 1); v >> 33 });
    match x % 64 { 0..=3 => std::thread::yield_now(), 4 => std::thread::sleep(std::time::Duration::from_micros(x >> 6 & 63)), 5..=9 => for _ in 0..(x >> 6 & 255) { std::hint::spin_loop() }, _ => {} }
}
impl Problem for Table {
    type State = St;
    fn nb_variables(&self) -> usize { self.n }
    fn initial_state(&self) -> St { St { depth: 0, mask: 1 } }
    fn initial_value(&self) -> isize { self.init_value }
    fn next_variable(&self, next_layer: &mut dyn Iterator<Item = &St>) -> Option<Variable> {
        match next_layer.next() {
            Some(s) => if s.depth < self.n { Some(Variable(self.order[s.depth])) } else { None },
            None => if self.empty_var && self.n > 0 { Some(Variable(0)) } else { None },
        }
    }
    fn for_each_in_domain<F>(&self, var: Variable, state: &St, mut f: F) where F: FnMut(Decision) {
        for (v, _, _) in self.moves(state.depth, state.mask) { f(Decision { var, value: v }) }
    }
    fn transition(&self, s: &St, d: Decision) -> St {
        jitter();
        let m = self.moves(s.depth, s.mask).into_iter().find(|m| m.0 == d.value).unwrap();
        St { depth: s.depth + 1, mask: m.1 }
    }
    fn transition_cost(&self, s: &St, d: Decision) -> isize {
        self.moves(s.depth, s.mask).into_iter().find(|m| m.0 == d.value).unwrap().2
    }
    fn estimate(&self, s: &St) -> isize {
        jitter();
        match (self.slack[s.depth][s.mask as usize], self.b(s)) {
            (None, _) => isize::MAX,
            (Some(_), None) => isize::MIN,
            (Some(k), Some(b)) => b + k,
        }
    }
}
#[derive(Debug, Clone, Copy)]
pub struct TRelax<'a>(pub &'a Table);
impl Relaxation for TRelax<'_> {
    type State = St;
    fn merge(&self, states: &mut dyn Iterator<Item = &St>) -> St {
        let mut m = 0; let mut d = 0;
        for s in states { m |= s.mask; d = s.depth; }
        St { depth: d, mask: m | self.0.merge_extra[d] }
    }
    fn relax(&self, _s: &St, _d: &St, _n: &St, _dec: Decision, cost: isize) -> isize { cost + self.0.relax_bonus }
}
#[derive(Debug, Clone, Copy)]
pub struct TRank(pub u64);
impl StateRanking for TRank {
    type State = St;
    fn compare(&self, a: &St, b: &St) -> Ordering {
        jitter();
        let h = |s: &St| { let mut r = Rng::new(self.0 ^ (s.mask as u64) << 8 ^ s.depth as u64); r.next() % 7 };
        h(a).cmp(&h(b))
    }
}
