//! Case runner, evidence and replay handling, PRNG.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::say;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % (n as u64)) as usize
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn f01(&mut self) -> f32 {
        ((self.u64() >> 40) as f32) / ((1u64 << 24) as f32)
    }
    pub fn f(&mut self, lo: f32, hi: f32) -> f32 {
        lo + self.f01() * (hi - lo)
    }
    pub fn chance(&mut self, p: f32) -> bool {
        self.f01() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn hash64(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// Short stable class of the failure (matched against the known findings).
    pub key: String,
    pub msg: String,
}
pub fn fail<T>(key: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { key: key.to_string(), msg })
}
pub type Res = Result<(), Fail>;

/// The code under test prints; what it prints must not mix with the verdict. `say!` writes to
/// the original standard output, descriptor 1 is pointed to /dev/null.
pub static OUT_FD: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);
pub fn redirect_stdout() {
    extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    use std::os::fd::AsRawFd;
    if std::env::var("VERIF_SHOW").is_ok() {
        return;
    }
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
    unsafe {
        let o = dup(1);
        assert!(o >= 0);
        OUT_FD.store(o, Ordering::SeqCst);
        assert!(dup2(null.as_raw_fd(), 1) >= 0);
    }
}
pub fn say_str(s: &str) {
    use std::io::Write;
    use std::os::fd::FromRawFd;
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(OUT_FD.load(Ordering::SeqCst)) });
    let _ = f.write_all(format!("{}\n", s).as_bytes());
}
#[macro_export]
macro_rules! say {
    ($($arg:tt)*) => { $crate::core::say_str(&format!($($arg)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !$cond { return Err($crate::core::Fail { key: $key.to_string(), msg: format!($($arg)*) }); }
    };
}

/// What one case observed.
#[derive(Default)]
pub struct Obs {
    pub fingerprint: String,
    pub nontrivial: bool,
    pub counters: BTreeMap<String, u64>,
    pub sample: Option<Value>,
}
impl Obs {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(format!("max_{}", k)).or_insert(0);
        if *e < n {
            *e = n;
        }
    }
}

pub struct Opts {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub verif: String,
    pub only: Option<(String, usize)>,
    pub threads: usize,
    pub variant: String,
}
impl Opts {
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

pub struct Report {
    /// more threads than cores, for cases that need little memory
    pub wide: bool,
    pub opts: Opts,
    pub rule: String,
    pub assumptions: Vec<String>,
    evals: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    groups: BTreeMap<String, Value>,
    pub violations: Vec<(String, usize, Fail)>,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, u64>,
    start: Instant,
    inconclusive: Option<String>,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
}

/// Runs `f`, turning a panic into a failure.
pub fn guarded<R>(f: impl FnOnce() -> Result<R, Fail>) -> Result<R, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            fail("panic", m)
        }
    }
}

thread_local! {
    static CASE: std::cell::RefCell<(String, String, String, u64, usize)> = std::cell::RefCell::new(Default::default());
}
/// Called by the allocator when a single case holds gigabytes.
pub fn out_of_memory() {
    let (verif, id, group, seed, case) = CASE.with(|c| c.borrow().clone());
    let fl = Fail { key: "memory".into(), msg: "the case holds more than 3 GB of memory".into() };
    let p = write_replay(&verif, &id, seed, &group, case, &fl);
    say!("{} group={} case={}: {}", id, group, case, fl.msg);
    say!("VIOLATION property={} replay={}", id, p);
    std::process::exit(1);
}

struct Watch {
    slots: Vec<(AtomicU64, AtomicUsize)>, // (start ms + 1, case)
}

pub const CASE_LIMIT_S: u64 = 240;
fn case_limit() -> u64 {
    std::env::var("VERIF_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(CASE_LIMIT_S)
}

impl Report {
    pub fn new(opts: Opts) -> Self {
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.json", opts.verif)) {
            if let Ok(v) = serde_json::from_str::<Value>(&s) {
                if let Some(a) = v.get("findings").and_then(|a| a.as_array()) {
                    for f in a {
                        if f["property"].as_str() == Some(&opts.id) {
                            known.push((
                                f["key"].as_str().unwrap_or("").to_string(),
                                f["what"].as_str().unwrap_or("").to_string(),
                            ));
                        }
                    }
                }
            }
        }
        Report {
            wide: false,
            opts,
            rule: String::new(),
            assumptions: vec![],
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            groups: BTreeMap::new(),
            violations: vec![],
            known,
            known_hit: BTreeMap::new(),
            start: Instant::now(),
            inconclusive: None,
        }
    }

    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn note(&mut self, k: &str, v: Value) {
        self.groups.insert(k.to_string(), v);
    }

    /// Runs `n` cases of the group in parallel. Each case gets a PRNG derived from
    /// (seed, group, case number) only, so that any single one can be replayed.
    pub fn run<F>(&mut self, group: &str, n: usize, f: F)
    where
        F: Fn(&mut Rng, usize, &mut Obs) -> Res + Sync,
    {
        // (an engine waits for its helper threads when it is dropped)
        let threads = self.opts.threads * if self.wide { 3 } else { 1 };
        self.run_t(group, n, threads, f)
    }

    pub fn run_t<F>(&mut self, group: &str, n: usize, threads: usize, f: F)
    where
        F: Fn(&mut Rng, usize, &mut Obs) -> Res + Sync,
    {
        let only = match &self.opts.only {
            Some((g, c)) if g == group => Some(*c),
            Some(_) => return,
            None => None,
        };
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let results: Mutex<Vec<(usize, Result<(), Fail>, Obs)>> = Mutex::new(vec![]);
        let base = self.opts.seed ^ hash64(&self.opts.id) ^ hash64(group).rotate_left(17);
        let t0 = Instant::now();
        let nthreads = if only.is_some() { 1 } else { threads.min(n.max(1)) };
        let watch = Arc::new(Watch {
            slots: (0..nthreads).map(|_| (AtomicU64::new(0), AtomicUsize::new(0))).collect(),
        });
        let done = Arc::new(AtomicBool::new(false));
        {
            // Watchdog: a case normally needs milliseconds to a few seconds. One that does
            // not come back at all is a hang of the code under test.
            let watch = watch.clone();
            let done = done.clone();
            let id = self.opts.id.clone();
            let verif = self.opts.verif.clone();
            let limit = case_limit();
            let seed = self.opts.seed;
            let group = group.to_string();
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(500));
                if done.load(Ordering::Relaxed) {
                    return;
                }
                let now = t0.elapsed().as_millis() as u64;
                for s in watch.slots.iter() {
                    let st = s.0.load(Ordering::Relaxed);
                    if st != 0 && now > st + limit * 1000 {
                        let c = s.1.load(Ordering::Relaxed);
                        let fl = Fail {
                            key: "hang".into(),
                            msg: format!("case did not finish within {} s", limit),
                        };
                        let p = write_replay(&verif, &id, seed, &group, c, &fl);
                        say!("{} group={} case={}: {}", id, group, c, fl.msg);
                        say!("VIOLATION property={} replay={}", id, p);
                        std::process::exit(1);
                    }
                }
            });
        }
        let (verif, id, seed) = (self.opts.verif.clone(), self.opts.id.clone(), self.opts.seed);
        std::thread::scope(|sc| {
            for t in 0..nthreads {
                let (verif, id) = (&verif, &id);
                let (next, stop, results, f, watch) = (&next, &stop, &results, &f, &watch);
                sc.spawn(move || loop {
                    let c = next.fetch_add(1, Ordering::Relaxed);
                    if c >= n || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if let Some(o) = only {
                        if c != o {
                            continue;
                        }
                    }
                    let mut rng = Rng::new(base.wrapping_add((c as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93)));
                    let mut obs = Obs::default();
                    crate::alloc::case_start();
                    CASE.with(|x| *x.borrow_mut() = (verif.clone(), id.clone(), group.to_string(), seed, c));
                    watch.slots[t].1.store(c, Ordering::Relaxed);
                    watch.slots[t].0.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                    let r = guarded(|| f(&mut rng, c, &mut obs));
                    watch.slots[t].0.store(0, Ordering::Relaxed);
                    results.lock().unwrap().push((c, r, obs));
                });
            }
        });
        done.store(true, Ordering::Relaxed);
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|r| r.0);
        let mut nontriv = 0;
        let mut g_counters: BTreeMap<String, u64> = BTreeMap::new();
        let total = results.len();
        for (c, r, obs) in results {
            self.evals += 1;
            for (k, v) in obs.counters {
                let e = g_counters.entry(k.clone()).or_insert(0);
                if k.starts_with("max_") {
                    *e = (*e).max(v);
                } else {
                    *e += v;
                }
            }
            if obs.nontrivial {
                nontriv += 1;
                self.distinct.insert(hash64(&format!("{}|{}", group, obs.fingerprint)));
            }
            if let Some(s) = obs.sample {
                if self.samples.len() < 12 && self.samples.iter().filter(|x| x["group"] == group).count() < 2 {
                    self.samples.push(json!({"group": group, "case": c, "case_data": s}));
                }
            }
            if let Err(fl) = r {
                if let Some((k, _)) = self.known.iter().find(|(k, _)| *k == fl.key) {
                    *self.known_hit.entry(k.clone()).or_insert(0) += 1;
                } else {
                    self.violations.push((group.to_string(), c, fl));
                }
            }
        }
        if total > 0 && nontriv == 0 && only.is_none() && self.violations.is_empty() {
            self.inconclusive =
                Some(format!("group {} observed nothing non-trivial in {} cases", group, total));
        }
        self.groups.insert(
            group.to_string(),
            json!({"cases": total, "nontrivial": nontriv, "observed": g_counters,
                   "seconds": (t0.elapsed().as_secs_f64()*10.0).round()/10.0}),
        );
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Writes evidence, prints the verdict, returns the exit code.
    pub fn finish(mut self) -> i32 {
        if self.samples.is_empty() {
            self.samples.push(json!({"note": "no sample recorded"}));
        }
        let mut cov = json!({
            "evaluations": self.evals,
            "distinct_nontrivial": self.distinct.len(),
            "rule": self.rule,
            "samples": self.samples,
            "groups": self.groups,
            "variant": self.opts.variant,
        });
        for (k, v) in self.counters.iter() {
            cov[k] = json!(v);
        }
        let mut ev = json!({
            "property": self.opts.id,
            "tier": if self.opts.thorough { "thorough" } else { "quick" },
            "seed": self.opts.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": (self.start.elapsed().as_secs_f64()*100.0).round()/100.0,
            "violations": self.violations.len(),
        });
        let mut s = serde_json::to_string_pretty(&ev).unwrap();
        if s.len() > 60_000 {
            ev["coverage"]["samples"] = json!([{"note": "samples dropped: too large"}]);
            s = serde_json::to_string_pretty(&ev).unwrap();
        }
        if self.opts.only.is_none() {
            let _ = std::fs::create_dir_all(format!("{}/evidence", self.opts.verif));
            std::fs::write(format!("{}/evidence/{}.json", self.opts.verif, self.opts.id), s)
                .expect("evidence written");
        }
        for (k, what) in self.known.iter() {
            let n = self.known_hit.get(k).copied().unwrap_or(0);
            if n > 0 {
                say!("KNOWN-FINDING: property={} {} ({} cases)", self.opts.id, what, n);
            }
        }
        say!(
            "{}: {} cases, {} distinct non-trivial, {} violations, {:.1} s",
            self.opts.id,
            self.evals,
            self.distinct.len(),
            self.violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        if !self.violations.is_empty() {
            let mut shown: BTreeMap<(String, String), u32> = BTreeMap::new();
            for (g, c, fl) in self.violations.iter() {
                let n = shown.entry((g.clone(), fl.key.clone())).or_insert(0);
                *n += 1;
                if *n > 3 {
                    continue;
                }
                let p = write_replay(&self.opts.verif, &self.opts.id, self.opts.seed, g, *c, fl);
                say!("{} group={} case={} [{}]: {}", self.opts.id, g, c, fl.key, trunc(&fl.msg));
                say!("VIOLATION property={} replay={}", self.opts.id, p);
            }
            return 1;
        }
        if let Some(why) = self.inconclusive {
            say!("INCONCLUSIVE property={} {}", self.opts.id, why);
            return 2;
        }
        0
    }
}

pub fn write_replay(verif: &str, id: &str, seed: u64, group: &str, case: usize, fl: &Fail) -> String {
    let dir = format!("{}/replay", verif);
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}-{}-{}-{}.json", dir, id, seed, group, case);
    let v = json!({"property": id, "seed": seed, "group": group, "case": case,
        "key": fl.key, "message": fl.msg,
        "command": format!("VERIF_SEED={} /verif/check.sh {} replay {} {}", seed, id, group, case)});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

fn trunc(s: &str) -> String {
    s.chars().take(700).collect()
}
