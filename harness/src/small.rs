//! Utilities.
use crate::{note, rng::Rng, Info, Res};
use bitset_fixed::BitSet;
use engineering::utils::*;
use engineering::*;
use std::cmp::Ordering;
fn set(r: &mut Rng, n: usize) -> (BitSet, Vec<usize>) {
    let mut b = BitSet::new(n); let d = 1 + r.below(30);
    let mut v = vec![];
    for i in 0..n { if r.chance(if i % 64 == 0 || i % 64 == 63 || i + 1 == n { 2 * d } else { d }, 60) { b.set(i, true); v.push(i) } }
    (b, v)
}
fn size(r: &mut Rng) -> usize { match r.below(4) { 0 => 1 + r.below(5), 1 => 60 + r.below(10), 2 => 64 * (1 + r.below(4)), _ => 1 + r.below(300) } }
pub fn bits(seed: u64) -> Res {
    let mut r = Rng::new(seed); let n = size(&mut r); let (b, v) = set(&mut r, n);
    note(&format!("bits {:?} of a {}-bit set", v, n));
    let mut it = BitSetIter::new(&b);
    let mut got = vec![];
    for _ in 0..=v.len() { match it.next() { Some(x) => got.push(x), None => break } }
    if got != v { return Err(format!("iterating yields {:?}, expected {:?}", got, v)); }
    for _ in 0..3 { if let Some(x) = it.next() { return Err(format!("exhausted iterator yields {}", x)); } }
    Ok(Info { key: seed, nontrivial: v.len() > 1, desc: format!("{} bits of {}", v.len(), n) })
}
pub fn lex(seed: u64) -> Res {
    let mut r = Rng::new(seed); let n = size(&mut r); let (a, va) = set(&mut r, n);
    let (mut b, _) = if r.chance(1, 2) { set(&mut r, n) } else { (a.clone(), vec![]) };
    for _ in 0..r.below(3) { let i = r.below(n); let x = b[i]; b.set(i, !x); }
    let expect = (0..n).map(|i| a[i].cmp(&b[i])).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal);
    note(&format!("a={:?} b={:?}", va, (0..n).filter(|i| b[*i]).collect::<Vec<_>>()));
    let (x, y) = (LexBitSet(&a), LexBitSet(&b));
    if x.cmp(&y) != expect { return Err(format!("cmp is {:?}, expected {:?}", x.cmp(&y), expect)); }
    if y.cmp(&x) != expect.reverse() { return Err("cmp is not antisymmetric".into()); }
    if x.partial_cmp(&y) != Some(expect) { return Err("partial_cmp differs from cmp".into()); }
    if (x == y) != (expect == Ordering::Equal) || (a == b) != (x == y) { return Err("equality differs from cmp".into()); }
    Ok(Info { key: seed, nontrivial: n > 3, desc: format!("{} bits, {:?}", n, expect) })
}
pub fn matrix(seed: u64) -> Res {
    let mut r = Rng::new(seed);
    let (m, n) = (1 + r.below(9), 1 + r.below(9));
    let dflt = r.range(-5, 5) as isize;
    let plain = r.chance(1, 2);
    let mut x: Matrix<isize> = if plain { Matrix::new(m, n) } else { Matrix::new_default(m, n, dflt) };
    note(&format!("{} columns, {} rows", m, n));
    let mut model = vec![vec![if plain { 0 } else { dflt }; m]; n];
    for k in 0..r.below(60) {
        let (i, j) = (r.below(n), r.below(m));
        if r.chance(2, 3) { x[(i, j)] = k as isize + 10; model[i][j] = k as isize + 10; }
        for i in 0..n { for j in 0..m { if x[(i, j)] != model[i][j] { return Err(format!("cell ({}, {}) holds {} instead of {}", i, j, x[(i, j)], model[i][j])); } } }
    }
    Ok(Info { key: seed, nontrivial: m > 1 && n > 1, desc: format!("{}x{}", n, m) })
}
pub fn names(seed: u64) -> Res {
    let mut r = Rng::new(seed);
    for c in [CompilationType::Exact, CompilationType::Relaxed, CompilationType::Restricted] { if c.to_string().parse::<CompilationType>() != Ok(c) { return Err(format!("{} does not read back", c)); } }
    for c in [CutsetType::LastExactLayer, CutsetType::Frontier] { if c.to_string().parse::<CutsetType>() != Ok(c) { return Err(format!("{} does not read back", c)); } }
    for c in [engineering::xputils::SolverType::Parallel, engineering::xputils::SolverType::Barrier] { if c.to_string().parse::<engineering::xputils::SolverType>() != Ok(c) { return Err(format!("{} does not read back", c)); } }
    let s: String = (0..r.below(9)).map(|_| (b'a' + r.below(26) as u8) as char).collect();
    let known = ["exact", "relaxed", "restricted", "lel", "frontier", "parallel", "barrier"];
    if !known.contains(&s.as_str()) && (s.parse::<CompilationType>().is_ok() || s.parse::<CutsetType>().is_ok() || s.parse::<engineering::xputils::SolverType>().is_ok()) { return Err(format!("{:?} is accepted", s)); }
    Ok(Info { key: seed, nontrivial: true, desc: s })
}
