//! Shared runner for the replay harnesses: evaluates contract oracles against the real code and records
//! the first failing input per key.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { let w = (hi as i128 - lo as i128 + 1) as u128; (lo as i128 + (self.u64() as u128 % w) as i128) as i64 }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn chance(&mut self, p: u64) -> bool { self.below(100) < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    /// small, medium and extreme integers
    pub fn int(&mut self) -> i64 { match self.below(6) { 0 => self.range(-3, 3), 1 => self.range(-100, 100), 2 => self.range(-100000, 100000), 3 => *self.pick(&[0, 1, -1, i64::MAX, i64::MIN, i32::MAX as i64, i32::MIN as i64, 127, 128, 255, 256, 65535, 65536]), 4 => self.range(-(1 << 40), 1 << 40), _ => self.u64() as i64 } }
    pub fn string(&mut self, n: u64) -> String { let k = self.below(n + 1); (0..k).map(|_| *self.pick(&['a', 'b', 'c', 'x', 'Z', '0', '9', '/', '_', ' ', '-', 'é', '日', '"', '\\'])).collect() }
}

static LAST: Mutex<String> = Mutex::new(String::new());

pub struct Run { pub rng: Rng, pub seed: u64, pub thorough: bool, start: Instant, budget: Duration, evals: u64, distinct: HashSet<u64>, samples: Vec<String>, wit: BTreeMap<String, (String, String)>, rule: String }

fn hash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } h }

impl Run {
    pub fn new(seed: u64, budget_ms: u64, thorough: bool) -> Self {
        std::panic::set_hook(Box::new(|i| { if std::thread::current().name() != Some("main") { return; } let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() }; *LAST.lock().unwrap_or_else(|e| e.into_inner()) = format!("{m} at {}", i.location().map(|l| l.to_string()).unwrap_or_default()); }));
        Run { rng: Rng::new(seed), seed, thorough, start: Instant::now(), budget: Duration::from_millis(budget_ms), evals: 0, distinct: HashSet::new(), samples: vec![], wit: BTreeMap::new(), rule: String::new() }
    }
    pub fn rule(&mut self, s: &str) { self.rule = s.into(); }
    pub fn time_left(&self) -> bool { self.start.elapsed() < self.budget }
    /// share of the budget used so far, in percent
    pub fn used(&self) -> u64 { (self.start.elapsed().as_millis() * 100 / self.budget.as_millis().max(1)) as u64 }
    pub fn failed(&self, key: &str) -> bool { self.wit.contains_key(key) }
    /// one evaluation of the contract named `key` on `input`
    pub fn check(&mut self, key: &str, input: impl Into<String>, f: impl FnOnce() -> Result<(), String>) -> bool {
        let input = input.into();
        self.evals += 1;
        let r = match catch_unwind(AssertUnwindSafe(f)) { Ok(r) => r, Err(_) => Err(format!("panicked: {}", LAST.lock().unwrap_or_else(|e| e.into_inner()))) };
        let tag = format!("{key} {input}");
        if self.distinct.len() < 2_000_000 { self.distinct.insert(hash(&tag)); }
        if self.samples.len() < 6 && (self.evals.is_power_of_two() || r.is_err()) { self.samples.push(tag.chars().take(300).collect()); }
        match r { Ok(()) => true, Err(m) => { self.wit.entry(key.into()).or_insert((input, m)); false } }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, key: &str, input: impl Into<String>, got: impl FnOnce() -> T, want: T) -> bool {
        self.check(key, input, || { let g = got(); if g == want { Ok(()) } else { Err(format!("got {g:?}, want {want:?}")) } })
    }
    pub fn json(&self) -> String {
        let q = |s: &str| { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o };
        let w: Vec<String> = self.wit.iter().map(|(k, (i, m))| format!("{{\"key\":{},\"input\":{},\"message\":{}}}", q(k), q(i), q(m))).collect();
        let s: Vec<String> = self.samples.iter().map(|s| q(s)).collect();
        format!("{{\"evaluations\":{},\"distinct\":{},\"rule\":{},\"samples\":[{}],\"witnesses\":[{}]}}", self.evals, self.distinct.len(), q(&self.rule), s.join(","), w.join(","))
    }
}
pub fn silence<R>(f: impl FnOnce() -> R) -> std::thread::Result<R> { catch_unwind(AssertUnwindSafe(f)) }
/// argv: PROP SEED BUDGET_MS TIER OUT
pub fn main(table: &[(&str, fn(&mut Run))]) {
    let a: Vec<String> = std::env::args().collect();
    let mut r = Run::new(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4] == "thorough");
    let Some((_, f)) = table.iter().find(|t| t.0 == a[1]) else { eprintln!("no harness for {}", a[1]); std::process::exit(4) };
    if let Err(_) = catch_unwind(AssertUnwindSafe(|| f(&mut r))) { let m = LAST.lock().unwrap_or_else(|e| e.into_inner()).clone(); eprintln!("harness panicked outside a case: {m}"); r.wit.entry("harness".into()).or_insert(("(setup of a case)".into(), format!("panicked: {m}"))); }
    std::fs::write(&a[5], r.json()).unwrap();
}
