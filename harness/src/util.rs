//! Small shared helpers: deterministic randomness, parallel sweeps, panic
//! capture, hang detection and the result file.
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Duration;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03) ^ 0x5DEECE66D);
        r.next();
        r.next();
        r
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: usize) -> usize { ((self.next() >> 32).wrapping_mul(n as u64) >> 32) as usize }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    #[inline]
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

thread_local!(static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });

/// Panics outside `guard`: one inside the library is a violation, one in the
/// harness a tool error (exit code 2).
pub fn panic_hook(rep: &'static Report) {
    std::panic::set_hook(Box::new(move |info| {
        if GUARDED.with(|g| g.get()) > 0 {
            return;
        }
        let place = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        eprintln!("unguarded panic: {}", info);
        if place.contains("/repo/") {
            if let Ok(mut g) = rep.violations.try_lock() {
                rep.nviol.fetch_add(1, Relaxed);
                g.push(json!({"what": "the library panicked", "where": place, "message": info.to_string()}));
            }
            rep.write();
            std::process::exit(1);
        }
        std::process::exit(2);
    }));
}

/// Run code under test; a panic is data.
#[inline]
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

pub const MAXW: usize = 256;
/// What each worker is doing, for hang reports: a card set (bit mask) or a tag.
pub static NOW: [AtomicU64; MAXW] = [const { AtomicU64::new(0) }; MAXW];
pub static BEAT: [AtomicU64; MAXW] = [const { AtomicU64::new(0) }; MAXW];
pub static BUSY: [AtomicBool; MAXW] = [const { AtomicBool::new(false) }; MAXW];
#[inline]
pub fn beat(w: usize, what: u64) {
    NOW[w].store(what, Relaxed);
    BEAT[w].fetch_add(1, Relaxed);
}

pub struct Report {
    pub evals: AtomicU64,
    pub violations: Mutex<Vec<Value>>,
    pub nviol: AtomicUsize,
    pub samples: Mutex<Vec<Value>>,
    pub notes: Mutex<Map<String, Value>>,
    pub out: String,
}
impl Report {
    pub fn new(out: &str) -> Self {
        Report {
            evals: AtomicU64::new(0),
            violations: Mutex::new(vec![]),
            nviol: AtomicUsize::new(0),
            samples: Mutex::new(vec![]),
            notes: Mutex::new(Map::new()),
            out: out.into(),
        }
    }
    pub fn add(&self, n: u64) { self.evals.fetch_add(n, Relaxed); }
    pub fn violation(&self, v: Value) {
        self.nviol.fetch_add(1, Relaxed);
        let mut g = self.violations.lock().unwrap();
        if g.len() < 25 {
            g.push(v);
        }
    }
    /// enough seen: sweeps stop early
    #[inline]
    pub fn stop(&self) -> bool { self.nviol.load(Relaxed) >= 25 }
    pub fn sample(&self, v: Value) {
        let mut g = self.samples.lock().unwrap();
        if g.len() < 12 {
            g.push(v);
        }
    }
    pub fn note(&self, k: &str, v: impl Into<Value>) { self.notes.lock().unwrap().insert(k.into(), v.into()); }
    /// a check of one condition
    pub fn check(&self, ok: bool, what: impl FnOnce() -> Value) {
        self.add(1);
        if !ok {
            self.violation(what());
        }
    }
    pub fn write(&self) {
        let v = json!({
            "evaluations": self.evals.load(Relaxed),
            "violation_count": self.nviol.load(Relaxed),
            "violations": *self.violations.lock().unwrap(),
            "samples": *self.samples.lock().unwrap(),
            "notes": *self.notes.lock().unwrap(),
        });
        std::fs::write(&self.out, serde_json::to_string_pretty(&v).unwrap()).expect("cannot write result file");
    }
}

/// Watch the workers; a call that does not come back within `limit` is
/// reported as a violation and ends the process.
pub fn watchdog(rep: &'static Report, limit: Duration) {
    std::thread::spawn(move || {
        // counted in looks taken, so that time in which nothing here runs (a
        // suspended machine, a starved process) does not count
        let mut last = [(0u64, 0u64); MAXW];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for w in 0..MAXW {
                let b = BEAT[w].load(Relaxed);
                if b != last[w].0 || !BUSY[w].load(Relaxed) {
                    last[w] = (b, 0);
                } else if { last[w].1 += 1; last[w].1 > 2 * limit.as_secs() } {
                    let m = NOW[w].load(Relaxed);
                    rep.violation(json!({"what": "a call did not return", "limit_s": limit.as_secs(), "cards": crate::table::mask_names(m), "tag": m}));
                    rep.write();
                    std::process::exit(1);
                }
            }
        }
    });
}

pub fn workers() -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(MAXW - 1) }

/// Work items 0..n over all cores; f(worker, item).
pub fn par(n: usize, rep: &Report, f: impl Fn(usize, usize) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for w in 0..workers() {
            let next = &next;
            let f = &f;
            s.spawn(move || {
                BUSY[w].store(true, Relaxed);
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n || rep.stop() {
                        break;
                    }
                    f(w, i);
                    BEAT[w].fetch_add(1, Relaxed);
                }
                BUSY[w].store(false, Relaxed);
            });
        }
    });
}
