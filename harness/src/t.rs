// Harness plumbing: seeded cases, failures, counters.
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u() % (n as u64)) as usize
    }
    pub fn coin(&mut self) -> bool {
        self.u() & 1 == 1
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            v.swap(i, self.below(i + 1));
        }
        v
    }
    /// n values, mostly independent picks; at times of a special form (all equal, sparse, edge values mixed in, one half constant).
    pub fn shaped(&mut self, n: usize, edge: &[u64], pick: &dyn Fn(&mut Rng) -> u64) -> Vec<u64> {
        let mut v: Vec<u64> = (0..n).map(|_| pick(self)).collect();
        let e = edge[self.below(edge.len())];
        if n == 0 { return v; }
        match self.below(12) {
            0 => v = vec![e; n],
            1 => { let x = v[0]; v = vec![x; n] }
            2 => { let (k, x) = ([0, n - 1, n / 2, self.below(n)][self.below(4)], v[0]); v = vec![edge[0]; n]; v[k] = if self.coin() { x } else { e }; }
            3 => for i in 0..n { if self.below(3) == 0 { v[i] = edge[self.below(edge.len())]; } },
            4 => { let lo = self.coin(); for i in 0..n { if (i < n / 2) == lo { v[i] = e; } } }
            _ => {}
        }
        v
    }
    pub fn poly(&mut self, n: usize) -> Vec<u64> {
        self.shaped(n, &[0, u64::MAX, 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1], &|r| r.u())
    }
    pub fn bits(&mut self, n: usize) -> Vec<u64> {
        self.shaped(n, &[0, 1], &|r| r.u() & 1)
    }
    /// coefficients 0, 1, -1
    pub fn tern(&mut self, n: usize) -> Vec<u64> {
        self.shaped(n, &[0, 1, u64::MAX], &|r| [0, 1, u64::MAX][r.below(3)])
    }
    pub fn mods(&mut self, n: usize, t: u64) -> Vec<u64> {
        self.shaped(n, &[0, t - 1, 1, t / 2], &|r| r.u() % t)
    }
}
pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
#[derive(Clone)]
pub struct Fail {
    pub sub: String,
    pub msg: String,
}
pub struct CheckFailed(pub String);

pub struct T {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<String>,
    pub evals: u64,
    pub subs: Vec<(String, u64)>,
    pub distinct: BTreeSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub rng: Rng,
    cur: String,
    ctxdesc: String,
}
impl T {
    pub fn new(prop: &str, seed: u64, thorough: bool, only: Option<String>) -> Self {
        T { prop: prop.into(), seed, thorough, only, evals: 0, subs: vec![], distinct: BTreeSet::new(), samples: vec![], fails: vec![], rng: Rng(seed), cur: String::new(), ctxdesc: String::new() }
    }
    /// How many times to repeat a case.
    pub fn reps(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough * 2 } else { (quick * 8).min(thorough).max(quick) }
    }
    /// Run one named group of cases; a failure or a panic ends the group, not the run.
    pub fn sub(&mut self, name: &str, f: impl FnOnce(&mut T)) {
        if let Some(o) = &self.only {
            if o != name { return; }
        }
        self.cur = name.into();
        self.ctxdesc.clear();
        self.rng = Rng(self.seed ^ hash(name) ^ hash(&self.prop));
        if std::env::var("HARNESS_TRACE").is_ok() { eprintln!("start {}", name); }
        let before = self.evals;
        let t0 = std::time::Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        if std::env::var("HARNESS_TIME").is_ok() { eprintln!("{:>8.2?} {} {}", t0.elapsed(), self.prop, name); }
        if let Err(e) = r {
            let m = if let Some(c) = e.downcast_ref::<CheckFailed>() { c.0.clone() } else { format!("unexpected panic: {} [case: {}]", panic_text(&*e), self.ctxdesc) };
            // a hook that no longer fits the tree (check.py empties it): this sub cannot run
            if m.contains("hook unavailable") { self.samples.push(format!("{}: not run, a hook is unavailable", name)); } else { self.fails.push(Fail { sub: name.into(), msg: m }); }
        }
        let n = self.evals - before;
        self.subs.push((name.into(), n));
    }
    /// Describe the case about to be run (shown when it panics or fails).
    pub fn case(&mut self, d: String) {
        if self.distinct.insert(hash(&d) ^ hash(&self.cur)) && self.samples.len() < 60 && (self.samples.iter().filter(|s| s.starts_with(&self.cur)).count() < 3) {
            let s: String = d.chars().take(240).collect();
            self.samples.push(format!("{}: {}", self.cur, s));
        }
        self.ctxdesc = d;
    }
    pub fn ok(&mut self, c: bool, msg: impl FnOnce() -> String) {
        self.evals += 1;
        if !c {
            let m = format!("{} [case: {}]", msg(), self.ctxdesc);
            std::panic::panic_any(CheckFailed(m));
        }
    }
    pub fn eq<A: PartialEq + std::fmt::Debug>(&mut self, got: A, want: A, what: &str) {
        let c = got == want;
        self.ok(c, || format!("{}: got {:?}, expected {:?}", what, Short(&got), Short(&want)));
    }
    pub fn must_panic<R>(&mut self, what: &str, f: impl FnOnce() -> R) {
        // an arithmetic overflow is no rejection: without overflow checks (any release build) it wraps silently
        let r = match catch_unwind(AssertUnwindSafe(f)) { Ok(_) => false, Err(e) => { let m = panic_text(&*e); !(m.starts_with("attempt to ") && m.ends_with(" with overflow")) } };
        self.ok(r, || format!("{}: accepted, expected a rejection", what));
    }
}
struct Short<'a, A>(&'a A);
impl<'a, A: std::fmt::Debug> std::fmt::Debug for Short<'a, A> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let s = format!("{:?}", self.0);
        if s.len() > 400 { write!(f, "{}...", &s[..400]) } else { write!(f, "{}", s) }
    }
}
pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<CheckFailed>() { s.0.clone() } else { "?".into() }
}
