//! Search harness for the real code: seeded case generation, panic capture, failing-case report.
#![allow(dead_code)]
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(u64, Option<u64>);
impl Rng {
    pub fn new(s: u64) -> Rng { let mut r = Rng(s ^ 0x9E37_79B9_7F4A_7C15, None); r.u64(); r.u64(); r }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn one_in(&mut self, n: u64) -> bool { self.below(n) == 0 }
    pub fn u8(&mut self) -> u8 { match self.below(6) { 0 => 0, 1 => 0xff, 2 => 1, 3 => 0x80, _ => self.u64() as u8 } }
    /// integers of every bit length, with the boundary values often
    pub fn int(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => 1u64 << self.below(64),
            3 => (1u64 << self.below(64)).wrapping_sub(1),
            4 => self.below(300),
            _ => { let b = self.range(1, 64); self.u64() >> (64 - b) }
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        match self.below(8) { 0 => vec![0; n], 1 => vec![0xff; n], 2 => { let mut v = vec![0; n]; if n > 0 { let i = self.below(n as u64) as usize; v[i] = self.u8(); } v }
            _ => (0..n).map(|_| self.u8()).collect() }
    }
    /// lengths: mostly short, sometimes around the RLP and size thresholds
    pub fn len(&mut self, max: usize) -> usize {
        let n = match self.below(6) { 0 => 0, 1 => 1, 2 => [31, 32, 33, 55, 56, 57, 64, 65, 255, 256, 257][self.below(11) as usize], _ => self.below(40) as usize };
        n.min(max)
    }
    pub fn blob(&mut self, max: usize) -> Vec<u8> { let n = self.len(max); self.bytes(n) }
    /// in some cases one list or string of the case is made long
    pub fn long(&mut self, k: u64) -> Option<u64> { if self.1.is_some() && self.below(k) == 0 { self.1.take() } else { None } }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i as u64 + 1) as usize; v.swap(i, j); } }
}

pub struct H { seed: u64, mult: u64, only: Option<String>, case: Option<u64>, evals: u64, seen: HashSet<u64>, samples: BTreeMap<String, Vec<String>>, per: BTreeMap<String, u64>, fails: u64, start: Instant, budget: Duration }

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

impl H {
    pub fn new() -> H {
        let g = |k: &str| std::env::var(k).ok();
        let thorough = g("VERIF_TIER").as_deref() == Some("thorough");
        std::panic::set_hook(Box::new(|_| {}));
        H { seed: g("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1), mult: if thorough { 20 } else { 1 }, only: g("AXV_ONLY"), case: g("AXV_CASE").and_then(|s| s.parse().ok()),
            evals: 0, seen: HashSet::new(), samples: BTreeMap::new(), per: BTreeMap::new(), fails: 0, start: Instant::now(), budget: Duration::from_secs(if thorough { 900 } else { 60 }) }
    }
    /// Runs `f` on `n` generated cases (20 times as many in the thorough tier). `f` gets the generator and a buffer
    /// into which it writes the case (for the report); it returns Err(key, message) when the property fails.
    pub fn check<F: FnMut(&mut Rng, &mut String) -> Result<(), String>>(&mut self, name: &str, n: u64, mut f: F) {
        if let Some(o) = &self.only { if o != name { return; } }
        let n = n * self.mult;
        let range = match self.case { Some(c) => c..c + 1, None => 0..n };
        let t0 = Instant::now();
        for i in range {
            if i > 16 && (self.start.elapsed() > self.budget || (self.mult == 1 && t0.elapsed() > Duration::from_secs(20))) { break; }
            let mut h = std::collections::hash_map::DefaultHasher::new();
            name.hash(&mut h);
            let mut rng = Rng::new(h.finish() ^ self.seed.wrapping_mul(0x1234_5678_9abc_def1) ^ i.wrapping_mul(0xD1B5_4A32_D192_ED03));
            let (step, at) = if n >= 400 { (200, 199) } else { (40, 39) };
            if i % step == at { rng.1 = Some(i / step); }
            let mut desc = String::new();
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, &mut desc)));
            self.evals += 1;
            *self.per.entry(name.to_string()).or_default() += 1;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (name, &desc).hash(&mut h);
            if !desc.is_empty() { self.seen.insert(h.finish()); }
            let s = self.samples.entry(name.to_string()).or_default();
            if s.len() < 2 && !desc.is_empty() { s.push(desc.chars().take(400).collect()); }
            let msg = match r {
                Ok(Ok(())) => continue,
                Ok(Err(m)) => m,
                Err(e) => format!("panicked: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
            };
            self.fails += 1;
            println!("FAIL\t{}\t{}\t{}\t{}", name, i, clean(&msg), clean(&desc));
            return;
        }
    }
    /// A fixed case, evaluated once.
    pub fn once<F: FnMut() -> Result<(), String>>(&mut self, name: &str, desc: &str, mut f: F) {
        let m = std::mem::replace(&mut self.mult, 1);
        self.check(name, 1, |_, d| { d.push_str(desc); f() });
        self.mult = m;
    }
    pub fn finish(self) -> ! {
        let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace(|c: char| c.is_control(), " ");
        let samples: Vec<String> = self.samples.iter().flat_map(|(k, v)| v.iter().take(1).map(move |s| format!("\"{}: {}\"", esc(k), esc(s)))).collect();
        let per: Vec<String> = self.per.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
        println!("STATS\t{{\"evaluations\":{},\"distinct\":{},\"per_check\":{{{}}},\"samples\":[{}],\"seconds\":{:.2}}}", self.evals, self.seen.len(), per.join(","), samples.join(","), self.start.elapsed().as_secs_f64());
        std::process::exit(if self.fails > 0 { 1 } else { 0 });
    }
}
fn clean(s: &str) -> String { s.replace(|c: char| c == '\t' || c == '\n' || c == '\r', " ").chars().take(6000).collect() }

#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }
#[macro_export]
macro_rules! ensure_eq { ($a:expr, $b:expr, $($m:tt)*) => { { let (a, b) = (&$a, &$b); if a != b { return Err(format!("{}: got {:?}, want {:?}", format!($($m)*), a, b)); } } } }
