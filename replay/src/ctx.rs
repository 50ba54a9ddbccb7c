//! Bookkeeping of a run: cases, failures, the deadline
use serde_json::{json, Value};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub deadline: Instant,
    pub cases: u64,
    pub fails: u64,
    pub samples: Vec<String>,
}

impl Ctx {
    pub fn done(&self) -> bool {
        self.fails >= 5 || Instant::now() > self.deadline
    }
    pub fn check(&mut self, what: &str, ok: bool, seen: &str) {
        self.cases += 1;
        if self.cases.is_power_of_two() && self.samples.len() < 12 {
            self.samples.push(what.chars().take(300).collect());
        }
        if !ok {
            self.fails += 1;
            if self.fails <= 5 {
                println!("FAIL {}", json!({"case": what.chars().take(1500).collect::<String>(), "seen": seen.chars().take(1500).collect::<String>()}));
            }
        }
    }
    pub fn eq<T: PartialEq + Debug>(&mut self, what: &str, got: T, want: T) {
        let ok = got == want;
        let seen = if ok { String::new() } else { format!("got {:?}, expected {:?}", got, want) };
        self.check(what, ok, &seen);
    }
    pub fn err(&mut self, what: &str, got: Result<Value, String>) {
        let seen = got.as_ref().map(|v| format!("accepted as {v}")).unwrap_or_default();
        self.check(what, got.is_err(), &seen);
    }
    /// a panic inside is a failure of the cases at hand
    pub fn guard(&mut self, what: &str, f: impl FnOnce(&mut Ctx)) {
        if self.done() {
            return;
        }
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        if let Err(p) = r {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            self.check(what, false, &format!("panic: {m}"));
        }
    }
}

/// run f on its own thread; Err if it panicked, None if it took longer than the limit
pub fn limited<T: Send + 'static>(secs: u64, f: impl FnOnce() -> T + Send + 'static) -> Option<Result<T, String>> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
        });
        let _ = tx.send(r);
    });
    rx.recv_timeout(Duration::from_secs(secs)).ok()
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

/// all orders of n things if there are no more than max, otherwise: as they are, reversed, rotated and shuffled ones
pub fn perms(n: usize, max: usize, seed: u64) -> Vec<Vec<usize>> {
    let f: usize = (1..=n).fold(1usize, |a, b| a.saturating_mul(b));
    let mut out = vec![];
    if f <= max {
        fn rec(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
            if cur.len() == n {
                out.push(cur.clone());
            }
            for i in 0..n {
                if !cur.contains(&i) {
                    cur.push(i);
                    rec(cur, n, out);
                    cur.pop();
                }
            }
        }
        rec(&mut vec![], n, &mut out);
        return out;
    }
    let id: Vec<usize> = (0..n).collect();
    let mut rev = id.clone();
    rev.reverse();
    let mut rot = id.clone();
    rot.rotate_left(n / 2);
    out.extend([id.clone(), rev, rot]);
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    while out.len() < max {
        let mut p = id.clone();
        for i in (1..n).rev() {
            p.swap(i, r.below(i + 1));
        }
        out.push(p);
    }
    out
}
