//! Runs concrete inputs through the real hacspec code and compares the result
//! with independent reference implementations (refs.rs) or with the defining
//! equation of the operation.
//!
//!   replay <PROP> --seed S --secs T --min N [--index I]
//!
//! Every case is determined by (PROP, seed, index); `--index` re-runs one case
//! and prints it.  Prints one JSON object.  Exit 0: no mismatch; 3: mismatch.
#![allow(private_macro_use, dead_code, unused, deprecated, warnings)]
#[macro_use]
extern crate hacspec;
#[macro_use]
extern crate abstract_integers;
macro_rules! eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b { return Err(format!("{}: got {:x?}, expected {:x?}", format!($($m)*), a, b)); }
    }};
}
macro_rules! must_panic {
    ($e:expr, $($m:tt)*) => {{
        if let Some(v) = $crate::attempt(|| $e) { return Err(format!("{}: expected a panic, got {:x?}", format!($($m)*), v)); }
    }};
}
/// `$e` must not panic.
macro_rules! val {
    ($e:expr, $($m:tt)*) => {{
        match $crate::attempt(|| $e) { Some(v) => v, None => return Err(format!("{}: panicked on a valid input", format!($($m)*))) }
    }};
}

mod rng;
mod refs;
mod ints;
mod seqs;
mod abst;
mod crypto;
use rng::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub rng: Rng,
    pub idx: u64,
    pub desc: String,
    pub nontrivial: bool,
}
impl Ctx {
    pub fn note(&mut self, s: String) {
        if !self.desc.is_empty() { self.desc.push_str("; "); }
        self.desc.push_str(&s);
    }
}
pub type R = Result<(), String>;
/// None when `f` panics.
pub fn attempt<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
type F = fn(&mut Ctx) -> R;
fn lookup(p: &str) -> Option<Vec<F>> {
    ints::table(p).or_else(|| seqs::table(p)).or_else(|| abst::table(p)).or_else(|| crypto::table(p))
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

static CUR: AtomicU64 = AtomicU64::new(u64::max_value());

fn run_case(kinds: &[F], prop: &str, seed: u64, idx: u64) -> (Ctx, R) {
    let k = (idx % kinds.len() as u64) as usize;
    let mut h = 0xcbf29ce484222325u64;
    for b in prop.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    let mut ctx = Ctx { rng: Rng::new(h ^ seed.wrapping_mul(0x9e3779b97f4a7c15) ^ idx.wrapping_mul(0xd1342543de82ef95)),
                        idx: idx / kinds.len() as u64, desc: String::new(), nontrivial: true };
    let r = match attempt(|| { let f = kinds[k]; f(&mut ctx) }) {
        Some(r) => r,
        None => Err("panicked on a valid input".to_string()),
    };
    (ctx, r)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).and_then(|x| x.parse::<u64>().ok());
    let seed = opt("--seed").unwrap_or(1);
    let secs = opt("--secs").unwrap_or(5);
    let min = opt("--min").unwrap_or(0);
    let kinds = match lookup(&prop) { Some(k) => k, None => { eprintln!("unknown property {}", prop); std::process::exit(2) } };
    static LAST: Mutex<Option<String>> = Mutex::new(None);
    std::panic::set_hook(Box::new(|info| { *LAST.lock().unwrap() = Some(format!("{}", info)); }));
    if let Some(i) = opt("--index") {
        let (c, r) = run_case(&kinds, &prop, seed, i);
        println!("case {} seed {} index {}: {}", prop, seed, i, c.desc);
        match r {
            Ok(()) => println!("ok"),
            Err(e) => { println!("MISMATCH {}\nlast panic: {:?}", e, LAST.lock().unwrap()); std::process::exit(3) }
        }
        return;
    }
    let p2 = prop.clone();
    std::thread::spawn(move || {
        let mut last = u64::max_value();
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CUR.load(Ordering::Relaxed);
            if c != last { last = c; since = Instant::now(); }
            else if since.elapsed() > Duration::from_secs(120) {
                println!("{{\"property\":{},\"seed\":{},\"violation\":{{\"index\":{},\"input\":\"\",\"what\":\"no result after 120 s: the call does not terminate\"}}}}", esc(&p2), seed, c);
                std::process::exit(3);
            }
        }
    });
    let start = Instant::now();
    let (mut n, mut nt) = (0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut distinct = std::collections::HashSet::new();
    let mut idx = 0;
    let out = loop {
        if start.elapsed() >= Duration::from_secs(secs) && n >= min { break None; }
        CUR.store(idx, Ordering::Relaxed);
        let (c, r) = run_case(&kinds, &prop, seed, idx);
        n += 1;
        if c.nontrivial {
            let mut h = 0xcbf29ce484222325u64;
            for b in c.desc.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
            if distinct.insert(h) { nt += 1; }
        }
        if samples.len() < 4 || (idx == 97 && samples.len() < 6) { samples.push(c.desc.clone()); }
        if let Err(e) = r { break Some((idx, c.desc, e)); }
        idx += 1;
    };
    let s: Vec<String> = samples.iter().map(|x| esc(&x.chars().take(400).collect::<String>())).collect();
    let v = match &out {
        None => "null".to_string(),
        Some((i, d, e)) => format!("{{\"index\":{},\"input\":{},\"what\":{},\"panic\":{}}}", i, esc(d), esc(e),
            esc(&LAST.lock().unwrap().clone().unwrap_or_default())),
    };
    println!("{{\"property\":{},\"seed\":{},\"cases\":{},\"distinct_nontrivial\":{},\"kinds\":{},\"wall_ms\":{},\"samples\":[{}],\"violation\":{}}}",
        esc(&prop), seed, n, nt, kinds.len(), start.elapsed().as_millis(), s.join(","), v);
    if out.is_some() { std::process::exit(3) }
}
