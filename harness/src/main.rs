//! Concrete search used when a proof obligation fails (to find a failing input) and as the labelled
//! bounded stand-in for what is outside the verifier's reach.
//!   replay run MODE SEED0 STEP BUDGET_MS   explore seeds SEED0, SEED0+STEP, ... until the budget is spent
//!   replay one MODE SEED REPS              replay one case (REPS times: thread schedules differ)
mod rng; mod table; mod solve; mod dd; mod front; mod small; mod history;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static CUR: Mutex<String> = Mutex::new(String::new());
static TICK: AtomicU64 = AtomicU64::new(0);

pub struct Info { pub key: u64, pub nontrivial: bool, pub desc: String }
pub type Res = Result<Info, String>;
pub static VERBOSE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn verbose() -> bool { VERBOSE.load(Ordering::Relaxed) }
pub fn note(s: &str) { *CUR.lock().unwrap() = s.to_string(); }

fn js(s: &str) -> String { format!("{:?}", s.chars().map(|c| if (c as u32) < 32 || !c.is_ascii() || c == '\'' { ' ' } else { c }).collect::<String>()) }
fn fail(mode: &str, seed: u64, msg: &str) -> ! {
    println!("{{\"fail\":{{\"mode\":{},\"seed\":{},\"msg\":{},\"case\":{}}}}}", js(mode), seed, js(msg), js(&CUR.lock().map(|c| c.clone()).unwrap_or_default()));
    std::process::exit(1)
}
fn dispatch(mode: &str, seed: u64) -> Res {
    let mut p = mode.split('-');
    match p.next().unwrap() {
        "solve" => solve::case(seed, p.next().unwrap(), p.next().unwrap()),
        "dd" => dd::case(seed, p.next().unwrap(), p.next().unwrap()),
        "hist" => history::case(seed),
        "front" => front::case(seed, p.next().unwrap()),
        "bits" => small::bits(seed), "lex" => small::lex(seed), "matrix" => small::matrix(seed), "names" => small::names(seed),
        _ => panic!("unknown mode {}", mode),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (cmd, mode) = (a[1].as_str(), a[2].clone());
    static SEED: AtomicU64 = AtomicU64::new(0);
    let m2 = mode.clone();
    std::panic::set_hook(Box::new(move |i| { fail(&m2, SEED.load(Ordering::SeqCst), &format!("panic: {}", i.to_string().replace('\n', " "))) }));
    let m3 = mode.clone();
    std::thread::spawn(move || { let mut last = u64::MAX; let mut stuck = 0; loop {
        std::thread::sleep(Duration::from_millis(500)); let t = TICK.load(Ordering::SeqCst);
        if t == last { stuck += 1 } else { stuck = 0; last = t }
        if stuck >= 40 { fail(&m3, SEED.load(Ordering::SeqCst), "hang: no progress for 20 s (deadlock, lost wake-up or endless search)") } } });
    if cmd == "one" {
        VERBOSE.store(true, Ordering::SeqCst);
        let (seed, reps): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
        SEED.store(seed, Ordering::SeqCst);
        for _ in 0..reps { TICK.fetch_add(1, Ordering::SeqCst); if let Err(e) = dispatch(&mode, seed) { fail(&mode, seed, &e) } }
        println!("{{\"ok\":true}}"); return;
    }
    let (s0, step, ms): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    let t0 = Instant::now();
    let (mut n, mut nt, mut seen, mut samples) = (0u64, 0u64, HashSet::new(), vec![]);
    let mut seed = s0;
    while t0.elapsed() < Duration::from_millis(ms) {
        SEED.store(seed, Ordering::SeqCst); TICK.fetch_add(1, Ordering::SeqCst);
        match dispatch(&mode, seed) {
            Err(e) => fail(&mode, seed, &e),
            Ok(i) => { n += 1; if i.nontrivial && seen.len() < 4_000_000 && seen.insert(i.key) { nt += 1; if samples.len() < 2 { samples.push(format!("seed {}: {}", seed, i.desc)) } } }
        }
        seed = seed.wrapping_add(step);
    }
    println!("{{\"stats\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}]}}}}", n, nt, samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
}
