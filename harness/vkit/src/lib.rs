//! Monitor kit: what every workload of this framework shares.
//!
//! * `Rng`      deterministic randomness from VERIF_SEED
//! * `Monitor`  counts what was observed, keeps violations, writes the run's record
//! * `guard`    runs code under test, turning a panic into an observation
//! * `journal`  the case in flight, in a shared mapping that survives abort/SIGSEGV/ASan death
//!
//! Results go to the file named by VK_OUT. A workload process always exits 0 when it finished;
//! the verdict is taken by lib/run.py from the record (or from the journal when it died).

pub mod gitignore;

use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- randomness

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    /// An independent stream, by name.
    pub fn stream(seed: u64, name: &str) -> Self {
        Rng::new(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ hash_str(name))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn word<'a>(&mut self, xs: &[&'a str]) -> &'a str {
        xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// Small most of the time, now and then large.
    pub fn len(&mut self, small: usize, large: usize) -> usize {
        if self.chance(1, 12) { self.below(large + 1) } else { self.below(small + 1) }
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x1_0000_0000_01b3);
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static GUARDED: RefCell<u32> = const { RefCell::new(0) };
}

fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let guarded = GUARDED.with(|g| *g.borrow() > 0);
        if !guarded {
            default(info);
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} @ {loc}")));
    }));
}

/// Runs code under test. `Err(message @ file:line)` if it panicked.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| *g.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| *g.borrow_mut() -= 1);
    r.map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

// ---------------------------------------------------------------- journal

const JOURNAL_CAP: usize = 1 << 16;

struct Journal {
    ptr: *mut u8,
}

// the mapping is shared and only ever written whole
unsafe impl Send for Journal {}

impl Journal {
    fn open() -> Option<Self> {
        let path = std::env::var("VK_JOURNAL").ok()?;
        let c = std::ffi::CString::new(path).ok()?;
        unsafe {
            let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC, 0o644);
            if fd < 0 || libc::ftruncate(fd, JOURNAL_CAP as i64) != 0 {
                return None;
            }
            let p = libc::mmap(
                std::ptr::null_mut(),
                JOURNAL_CAP,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                fd,
                0,
            );
            libc::close(fd);
            if p == libc::MAP_FAILED { None } else { Some(Journal { ptr: p.cast() }) }
        }
    }
    fn put(&self, text: &[u8]) {
        let n = text.len().min(JOURNAL_CAP - 8);
        unsafe {
            std::ptr::copy_nonoverlapping((n as u64).to_le_bytes().as_ptr(), self.ptr, 8);
            std::ptr::copy_nonoverlapping(text.as_ptr(), self.ptr.add(8), n);
        }
    }
}

// ---------------------------------------------------------------- watchdog

/// Bumped by every evaluation. Does this stand still while the process burns CPU time, the code
/// under test does not return: a verdict on CPU seconds spent on one case, not on the wall clock.
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static WATCHING: AtomicBool = AtomicBool::new(false);

/// Exit codes run.py knows.
pub const EXIT_SPINNING: i32 = 97;
pub const EXIT_STUCK: i32 = 98;

/// Also to be called by workloads that spend long on their own account.
pub fn alive() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

fn cpu_seconds() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

fn start_watchdog() {
    if cfg!(miri) || WATCHING.swap(true, Ordering::SeqCst) {
        return;
    }
    let limit: f64 = std::env::var("VK_SPIN").ok().and_then(|s| s.parse().ok()).unwrap_or(20.0);
    std::thread::spawn(move || {
        let (mut seen, mut cpu, mut wall) = (0, cpu_seconds(), Instant::now());
        while WATCHING.load(Ordering::SeqCst) {
            std::thread::sleep(Duration::from_millis(100));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now != seen {
                (seen, cpu, wall) = (now, cpu_seconds(), Instant::now());
            } else if cpu_seconds() - cpu > limit {
                unsafe { libc::_exit(EXIT_SPINNING) }
            } else if wall.elapsed().as_secs() > 150 {
                unsafe { libc::_exit(EXIT_STUCK) }
            }
        }
    });
}

// ---------------------------------------------------------------- monitor

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub detail: String,
    pub case: Value,
}

pub struct Monitor {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    maxima: std::collections::BTreeSet<String>,
    samples: Vec<Value>,
    sample_at: u64,
    violations: Vec<Violation>,
    violation_total: u64,
    keys: HashSet<String>,
    inconclusive: Vec<String>,
    notes: Map<String, Value>,
    start: Instant,
    budget: Duration,
    journal: Option<Journal>,
    explicit: std::cell::Cell<bool>,
    out: Option<String>,
    /// VK_REPLAY=<file>: only this case is run.
    pub replay: Option<Value>,
}

impl Monitor {
    pub fn new(property: &str) -> Self {
        install_hook();
        start_watchdog();
        let env = |k: &str| std::env::var(k).ok();
        let seed: u64 = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
        // one of several processes that share the work: other random cases
        let shard: u64 = env("VK_SHARD").and_then(|s| s.parse().ok()).unwrap_or(0);
        let seed = if shard == 0 { seed } else { hash_str(&format!("{seed} shard {shard}")) };
        let thorough = env("VERIF_TIER").as_deref() == Some("thorough");
        let budget = env("VK_BUDGET").and_then(|s| s.parse().ok()).unwrap_or(if thorough {
            300.0
        } else {
            20.0
        });
        Monitor {
            property: property.into(),
            seed,
            thorough,
            evaluations: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            maxima: Default::default(),
            samples: vec![],
            sample_at: 1,
            violations: vec![],
            violation_total: 0,
            keys: HashSet::new(),
            inconclusive: vec![],
            notes: Map::new(),
            start: Instant::now(),
            budget: Duration::from_secs_f64(budget),
            journal: Journal::open(),
            explicit: std::cell::Cell::new(false),
            out: env("VK_OUT"),
            replay: env("VK_REPLAY").and_then(|p| {
                let t = std::fs::read_to_string(p).ok()?;
                let v: Value = serde_json::from_str(&t).ok()?;
                Some(v.get("case").cloned().unwrap_or(v))
            }),
        }
    }
    pub fn rng(&self, name: &str) -> Rng {
        Rng::stream(self.seed, name)
    }
    /// quick or thorough amount of work
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn time_left(&self) -> bool {
        self.start.elapsed() < self.budget
    }
    pub fn fraction_used(&self) -> f64 {
        self.start.elapsed().as_secs_f64() / self.budget.as_secs_f64()
    }
    /// Too many distinct violations to be worth going on.
    pub fn saturated(&self) -> bool {
        self.violations.len() >= 25
    }
    pub fn running(&self) -> bool {
        self.time_left() && !self.saturated()
    }
    /// Note the case about to be executed, for post-mortem use.
    pub fn inflight(&self, case: &str) {
        alive();
        self.explicit.set(true);
        if let Some(j) = &self.journal {
            j.put(case.as_bytes());
        }
    }
    /// One evaluation of the property by the oracle. `shape` identifies what was distinct about it;
    /// `nontrivial` says whether the property had anything to decide on it.
    pub fn eval(&mut self, shape: u64, nontrivial: bool) {
        alive();
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(shape);
        }
    }
    pub fn eval_str(&mut self, shape: &str, nontrivial: bool) {
        if !self.explicit.get() {
            if let Some(j) = &self.journal {
                j.put(shape.as_bytes());
            }
        }
        self.eval(hash_str(shape), nontrivial)
    }
    pub fn count(&mut self, what: &str) {
        self.add(what, 1)
    }
    pub fn add(&mut self, what: &str, n: u64) {
        *self.counters.entry(what.into()).or_default() += n;
    }
    pub fn counter(&self, what: &str) -> u64 {
        self.counters.get(what).copied().unwrap_or(0)
    }
    pub fn max(&mut self, what: &str, n: u64) {
        if !self.maxima.contains(what) {
            self.maxima.insert(what.into());
        }
        let e = self.counters.entry(what.into()).or_default();
        *e = (*e).max(n);
    }
    pub fn note(&mut self, key: &str, v: impl Into<Value>) {
        self.notes.insert(key.into(), v.into());
    }
    /// Keeps samples at exponentially spaced evaluations.
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.evaluations >= self.sample_at && self.samples.len() < 12 {
            self.samples.push(f());
            self.sample_at = self.evaluations * 3 + 1;
        }
    }
    /// `key`: identifies the specific failing thing (used by the known-findings file).
    pub fn violation(&mut self, key: impl Into<String>, detail: impl Into<String>, case: Value) {
        let key = key.into();
        self.violation_total += 1;
        if self.keys.insert(key.clone()) && self.violations.len() < 200 {
            let mut detail: String = detail.into();
            if detail.len() > 6000 {
                let mut n = 6000;
                while !detail.is_char_boundary(n) {
                    n -= 1;
                }
                detail.truncate(n);
            }
            eprintln!("[{}] violation {key}: {detail}", self.property);
            self.violations.push(Violation { key, detail, case });
        }
    }
    pub fn inconclusive(&mut self, why: impl Into<String>) {
        if self.inconclusive.len() < 50 {
            self.inconclusive.push(why.into());
        }
        self.count("inconclusive");
    }
    pub fn check(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> String, case: impl FnOnce() -> Value) -> bool {
        if !ok {
            self.violation(key, detail(), case());
        }
        ok
    }
    pub fn distinct(&self) -> usize {
        self.distinct.len()
    }
    /// A run that did not see this much cannot vouch for anything.
    pub fn require(&mut self, what: &str, at_least: u64) {
        let n = self.counter(what);
        if n < at_least && self.replay.is_none() {
            self.inconclusive(format!("observed only {n} of `{what}`, needed {at_least}"));
            self.notes.insert("starved".into(), json!(true));
        }
    }
    pub fn finish(self) {
        WATCHING.store(false, Ordering::SeqCst);
        let v = json!({
            "property": self.property,
            "seed": self.seed,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct.len(),
            "counters": self.counters,
            "maxima": self.maxima,
            "samples": self.samples,
            "notes": self.notes,
            "inconclusive": self.inconclusive,
            "violation_total": self.violation_total,
            "violations": self.violations.iter().map(|v| json!({
                "key": v.key, "detail": v.detail, "case": v.case,
            })).collect::<Vec<_>>(),
            "wall_s": self.start.elapsed().as_secs_f64(),
        });
        let text = serde_json::to_string_pretty(&v).unwrap();
        match &self.out {
            Some(p) => {
                // for counting over several processes
                let distinct: Vec<u8> = self.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
                std::fs::write(format!("{p}.distinct"), distinct).unwrap();
                std::fs::write(p, text).unwrap()
            }
            None => println!("{text}"),
        }
    }
}

/// A short printable form of a string for messages.
pub fn show(s: &str) -> String {
    let t: String = s.chars().take(400).collect();
    if t.len() < s.len() { format!("{t:?}…({} bytes)", s.len()) } else { format!("{t:?}") }
}

// ---------------------------------------------------------------- scratch space

/// A scratch directory removed on drop, below $VK_SCRATCH or the temp dir.
pub struct Scratch(std::path::PathBuf);

impl Scratch {
    pub fn new(tag: &str) -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var_os("VK_SCRATCH")
            .map(std::path::PathBuf::from)
            .unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("vk-{tag}-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch");
        let p = std::fs::canonicalize(p).expect("scratch");
        Scratch(p)
    }
    pub fn path(&self) -> &std::path::Path {
        &self.0
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
