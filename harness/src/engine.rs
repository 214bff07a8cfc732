//! Exhaustive, index-addressed exploration.
//!
//! A check is a list of families. A family is a finite space of cases numbered `0..size`; every
//! case is executed on the real code and judged by an oracle. Nothing is sampled: a family is
//! always explored completely (or the run says that a cap was hit).
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type CaseResult = Result<(), String>;

pub struct Family {
    pub name: String,
    pub bound: String,
    pub size: u64,
    pub chunk: u64,
    pub run: Box<dyn Fn(u64, &mut Rec) -> CaseResult + Sync + Send>,
}

impl Family {
    pub fn new(
        name: impl Into<String>,
        bound: impl Into<String>,
        size: u64,
        run: impl Fn(u64, &mut Rec) -> CaseResult + Sync + Send + 'static,
    ) -> Family {
        let chunk = (size / 512).clamp(1, 4096);
        Family { name: name.into(), bound: bound.into(), size, chunk, run: Box::new(run) }
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub families: Vec<Family>,
}

const FP_BITS: u32 = 28;

/// Fingerprint set: counts distinct hashes (an undercount when fingerprints collide).
pub struct FpSet {
    bits: Vec<AtomicU64>,
    count: AtomicU64,
}

impl FpSet {
    pub fn new() -> FpSet {
        FpSet {
            bits: (0..(1usize << FP_BITS) / 64).map(|_| AtomicU64::new(0)).collect(),
            count: AtomicU64::new(0),
        }
    }
    pub fn insert(&self, hash: u64) -> bool {
        let h = (hash.wrapping_mul(0x9E37_79B9_7F4A_7C15)) >> (64 - FP_BITS);
        let w = &self.bits[(h / 64) as usize];
        let m = 1u64 << (h % 64);
        if w.load(Relaxed) & m != 0 {
            return false;
        }
        let new = w.fetch_or(m, Relaxed) & m == 0;
        if new {
            self.count.fetch_add(1, Relaxed);
        }
        new
    }
    pub fn len(&self) -> u64 {
        self.count.load(Relaxed)
    }
}

/// FNV-style hashing of anything hashable, stable across runs.
pub fn fp<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    struct H(u64);
    impl std::hash::Hasher for H {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 32;
            x = x.wrapping_mul(0xd6e8feb86659fd93);
            x ^= x >> 32;
            x
        }
        fn write(&mut self, b: &[u8]) {
            for &c in b {
                self.0 = (self.0 ^ c as u64).wrapping_mul(0x100000001b3).rotate_left(5);
            }
        }
    }
    let mut h = H(0xcbf29ce484222325);
    t.hash(&mut h);
    std::hash::Hasher::finish(&h)
}

pub struct Shared {
    pub states: FpSet,
    pub nontrivial: FpSet,
}

/// Recorder handed to each case.
pub struct Rec<'a> {
    pub shared: &'a Shared,
    pub evals: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub notes: BTreeMap<String, u64>,
    pub sample: Option<String>,
    pub want_sample: bool,
    pub verbose: bool,
}

impl<'a> Rec<'a> {
    pub fn new(shared: &'a Shared) -> Rec<'a> {
        Rec {
            shared,
            evals: 0,
            transitions: 0,
            traces: 0,
            outcomes: BTreeMap::new(),
            notes: BTreeMap::new(),
            sample: None,
            want_sample: false,
            verbose: false,
        }
    }
    /// One evaluated case / execution.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// One operation executed on implementation and reference.
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    /// A complete trace of the reference replayed against the implementation.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn state(&mut self, h: u64) {
        self.shared.states.insert(h);
    }
    pub fn nontrivial(&mut self, h: u64) {
        self.shared.nontrivial.insert(h);
    }
    pub fn outcome(&mut self, o: &'static str) {
        *self.outcomes.entry(o).or_insert(0) += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
        
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static BACKTRACE: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook(verbose: bool) {
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if verbose {
            eprintln!("panic: {msg}{loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg}{loc}")));
    }));
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_string())),
    }
}

pub struct Failure {
    pub family: String,
    pub index: u64,
    pub msg: String,
}

#[derive(Default)]
pub struct Totals {
    pub evals: u64,
    pub transitions: u64,
    pub traces: u64,
    pub states: u64,
    pub nontrivial: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub notes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub families: Vec<(String, String, u64, f64)>,
    pub complete: bool,
    pub known: Vec<String>,
}

pub fn threads() -> usize {
    std::env::var("VMC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    })
}

/// Seconds a single case may take before it counts as not terminating.
fn case_limit() -> u64 {
    std::env::var("VMC_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(90)
}

pub fn run_one(fam: &Family, index: u64) -> CaseResult {
    let shared = Shared { states: FpSet::new(), nontrivial: FpSet::new() };
    let mut rec = Rec::new(&shared);
    rec.verbose = true;
    match catch(|| (fam.run)(index, &mut rec)) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {p}")),
    }
}

/// Explore all families. `known` decides whether a failure message is a listed finding.
pub fn explore(
    check: &Check,
    known: &(dyn Fn(&str) -> Option<String> + Sync),
    on_hang: &(dyn Fn(&str, u64) + Sync),
) -> (Totals, Option<Failure>) {
    let shared = Shared { states: FpSet::new(), nontrivial: FpSet::new() };
    let mut totals = Totals { complete: true, ..Totals::default() };
    let n = threads();
    let known_hits: Mutex<BTreeMap<String, ()>> = Mutex::new(BTreeMap::new());
    for fam in &check.families {
        let start = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let failure: Mutex<Option<Failure>> = Mutex::new(None);
        let base = Instant::now();
        // per worker: (index+1, start in ms) of the running case
        let running: Vec<(AtomicU64, AtomicU64)> =
            (0..n).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
        let recs: Mutex<Vec<Rec>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            let mut handles = vec![];
            for w in 0..n {
                let (next, stop, failure, running, recs, shared) =
                    (&next, &stop, &failure, &running, &recs, &shared);
                let known_hits = &known_hits;
                handles.push(
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let mut rec = Rec::new(shared);
                            'outer: loop {
                                let lo = next.fetch_add(fam.chunk, Relaxed);
                                if lo >= fam.size || stop.load(Relaxed) {
                                    break;
                                }
                                let hi = (lo + fam.chunk).min(fam.size);
                                rec.want_sample = lo == 0 || (lo <= fam.size / 2 && fam.size / 2 < hi);
                                for i in lo..hi {
                                    running[w].1.store(base.elapsed().as_millis() as u64, Relaxed);
                                    running[w].0.store(i + 1, Release);
                                    let r = match catch(|| (fam.run)(i, &mut rec)) {
                                        Ok(r) => r,
                                        Err(p) => Err(format!("panicked: {p}")),
                                    };
                                    running[w].0.store(0, Release);
                                    if let Err(msg) = r {
                                        if let Some(k) = known(&msg) {
                                            known_hits.lock().unwrap().insert(k, ());
                                            continue;
                                        }
                                        let mut f = failure.lock().unwrap();
                                        if f.as_ref().map_or(true, |f| f.index > i) {
                                            *f = Some(Failure { family: fam.name.clone(), index: i, msg });
                                        }
                                        stop.store(true, Relaxed);
                                        break 'outer;
                                    }
                                }
                            }
                            recs.lock().unwrap().push(rec);
                        })
                        .unwrap(),
                );
            }
            let (done_r, running_r) = (&done, &running);
            let watchdog = s.spawn(move || {
                while !done_r.load(Relaxed) {
                    std::thread::park_timeout(Duration::from_millis(200));
                    let now = base.elapsed().as_millis() as u64;
                    for r in running_r.iter() {
                        let idx = r.0.load(Acquire);
                        let st = r.1.load(Relaxed);
                        if idx != 0 && now > st && now - st > case_limit() * 1000 && r.0.load(Acquire) == idx {
                            on_hang(&fam.name, idx - 1);
                        }
                    }
                }
            });
            for h in handles {
                let _ = h.join();
            }
            done.store(true, Relaxed);
            watchdog.thread().unpark();
        });
        for rec in recs.into_inner().unwrap() {
            totals.evals += rec.evals;
            totals.transitions += rec.transitions;
            totals.traces += rec.traces;
            for (k, v) in rec.outcomes {
                *totals.outcomes.entry(k).or_insert(0) += v;
            }
            for (k, v) in rec.notes {
                *totals.notes.entry(k).or_insert(0) += v;
            }
            if let Some(s) = rec.sample {
                totals.samples.push(format!("{}: {}", fam.name, s));
            }
        }
        totals.families.push((fam.name.clone(), fam.bound.clone(), fam.size, start.elapsed().as_secs_f64()));
        eprintln!("  {:<28} {:>10} cases {:>7.2}s", fam.name, fam.size, start.elapsed().as_secs_f64());
        if let Some(f) = failure.into_inner().unwrap() {
            totals.complete = false;
            totals.states = shared.states.len();
            totals.nontrivial = shared.nontrivial.len();
            return (totals, Some(f));
        }
    }
    totals.states = shared.states.len();
    totals.nontrivial = shared.nontrivial.len();
    totals.known = known_hits.into_inner().unwrap().into_keys().collect();
    (totals, None)
}

/// Mixed radix digits of an index, least significant first.
pub struct Digits(pub u64);
impl Digits {
    pub fn take(&mut self, base: usize) -> usize {
        let d = self.0 % base as u64;
        self.0 /= base as u64;
        d as usize
    }
}

/// `base^n`, saturating.
pub fn pow(base: usize, n: usize) -> u64 {
    (base as u64).saturating_pow(n as u32)
}

/// All subsets of `0..n` with at most `k` elements, by rank.
pub fn small_subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        let mut next = vec![];
        for s in &last {
            let from = s.last().map_or(0, |&x| x + 1);
            for i in from..n {
                let mut t = s.clone();
                t.push(i);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
