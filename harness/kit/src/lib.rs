//! Shared runtime-monitoring kit: seeded case generation, event accounting,
//! three-valued verdicts, known findings, evidence files.
use rand_core::{Error, RngCore};
use serde_json::{json, Value as J};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- randomness
#[derive(Clone, Debug)]
pub struct Rng(u64, u64);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, idx: u64) -> Self {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in stream.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
        }
        let mut s = seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ h ^ idx.rotate_left(32);
        let a = splitmix(&mut s);
        let b = splitmix(&mut s) | 1;
        Rng(a, b)
    }
    pub fn u64(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(55) ^ s1 ^ (s1 << 14);
        self.1 = s1.rotate_left(36);
        if self.0 == 0 && self.1 == 0 {
            self.1 = 1;
        }
        r.rotate_left(17).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ r
    }
    /// uniform-ish in [0, n)
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.u64() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        self.fill_bytes(&mut v);
        v
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl rand_core::CryptoRng for Rng {}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h ^ (h >> 29)
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

// ------------------------------------------------- bounded-progress allocator
/// Counts the bytes the current thread has live while a bound is armed. A run of
/// the code under test whose trace must stay small (because the reference model
/// says so) but which allocates beyond the bound has diverged: that is a logical
/// measure of progress, not a wall-clock one.
pub struct BoundAlloc;

thread_local! {
    static LIMIT: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
}
static DIVERGED: Mutex<Option<(String, String)>> = Mutex::new(None); // (property, case)
static CTX_META: Mutex<Option<(String, String, u64)>> = Mutex::new(None);

unsafe impl GlobalAlloc for BoundAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        track(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        track(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        track(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

#[inline]
fn track(d: isize) {
    let _ = LIMIT.try_with(|lim| {
        let limit = lim.get();
        if limit == 0 {
            return;
        }
        let _ = LIVE.try_with(|live| {
            let v = live.get() + d;
            live.set(v);
            if v > 0 && v as usize > limit {
                lim.set(0);
                diverged(v as usize);
            }
        });
    });
}

#[cold]
fn diverged(bytes: usize) -> ! {
    let (prop, case) = DIVERGED
        .lock()
        .map(|g| g.clone())
        .unwrap_or(None)
        .unwrap_or(("?".into(), "?".into()));
    let path = write_replay(
        &prop,
        &json!({"signature": "diverged", "detail": format!("execution allocated {} bytes where the reference run is bounded far below", bytes), "case": case}),
    );
    println!("VIOLATION property={} replay={}", prop, path);
    emergency_evidence(&prop);
    std::process::exit(1);
}

fn emergency_evidence(prop: &str) {
    if let Ok(g) = CTX_META.lock() {
        if let Some((p, tier, seed)) = g.clone() {
            let _ = std::fs::create_dir_all("/verif/evidence");
            let e = json!({"property": p, "tier": tier, "seed": seed, "level": "exploration",
                "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run ended early at a violation", "samples": []},
                "wall_s": 0.0, "violations": 1});
            let _ = std::fs::write(format!("/verif/evidence/{}.json", prop), e.to_string());
        }
    }
}

fn write_replay(prop: &str, v: &J) -> String {
    static N: AtomicUsize = AtomicUsize::new(0);
    let n = N.fetch_add(1, Ordering::SeqCst);
    let dir = std::env::var("VERIF_REPLAYS").unwrap_or_else(|_| "/verif/replays".into());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.json", dir, prop, n);
    let _ = std::fs::write(&path, serde_json::to_string_pretty(v).unwrap_or_default());
    path
}

/// Outcome of running code under test.
#[derive(Debug)]
pub enum Out<T> {
    Ok(T),
    Panic(String),
}
impl<T> Out<T> {
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(t) => Some(t),
            Out::Panic(_) => None,
        }
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, Out::Panic(_))
    }
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Run `f`, turning a panic into a value (the panic hook is silenced by Ctx::new).
pub fn guard<T>(f: impl FnOnce() -> T) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Out::Ok(t),
        Err(e) => Out::Panic(panic_msg(e)),
    }
}

/// As `guard`, with a bound on the bytes the closure may have live on this thread.
pub fn guard_bounded<T>(prop: &str, case: impl FnOnce() -> String, bytes: usize, f: impl FnOnce() -> T) -> Out<T> {
    if let Ok(mut g) = DIVERGED.lock() {
        *g = Some((prop.to_string(), case()));
    }
    LIVE.with(|l| l.set(0));
    LIMIT.with(|l| l.set(bytes));
    let r = catch_unwind(AssertUnwindSafe(f));
    LIMIT.with(|l| l.set(0));
    match r {
        Ok(t) => Out::Ok(t),
        Err(e) => Out::Panic(panic_msg(e)),
    }
}

// ------------------------------------------------------------------- context
#[derive(Default)]
struct Inner {
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<J>,
    violations: Vec<(String, String)>,
    known_hits: BTreeMap<String, u64>,
    inconclusive: Vec<String>,
    rule: String,
    assumptions: Vec<String>,
}

pub struct Ctx {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    start: Instant,
    evals: AtomicU64,
    inner: Mutex<Inner>,
    known: Vec<(String, String)>, // (signature, description)
    stop: AtomicBool,
    budget: Mutex<Duration>,
}

impl Ctx {
    pub fn from_args() -> Ctx {
        let args: Vec<String> = std::env::args().collect();
        let property = args.get(1).cloned().unwrap_or_else(|| {
            eprintln!("usage: <bin> <property> [quick|thorough]");
            std::process::exit(2)
        });
        let tier = args
            .get(2)
            .cloned()
            .or_else(|| std::env::var("VERIF_TIER").ok())
            .unwrap_or_else(|| "quick".into());
        let tier = if tier == "thorough" { "thorough" } else { "quick" }.to_string();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let known = load_known(&property);
        if std::env::var("VERIF_LOUD").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        *CTX_META.lock().unwrap() = Some((property.clone(), tier.clone(), seed));
        // generous wall-clock watchdog: firing is inconclusive, never a violation
        let limit = if tier == "thorough" { 4 * 3600 } else { 840 };
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(limit));
            eprintln!("INCONCLUSIVE: watchdog after {} s", limit);
            std::process::exit(3);
        });
        Ctx {
            property,
            tier,
            seed,
            start: Instant::now(),
            evals: AtomicU64::new(0),
            inner: Mutex::new(Inner::default()),
            known,
            stop: AtomicBool::new(false),
            budget: Mutex::new(Duration::from_secs(3600)),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// `q` in the quick tier, `t` in the thorough tier
    pub fn n(&self, q: usize, t: usize) -> usize {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn rng(&self, stream: &str, idx: u64) -> Rng {
        Rng::new(self.seed, &format!("{}/{}", self.property, stream), idx)
    }
    /// One execution of the oracle. `key` identifies the case; `None` = trivial case.
    pub fn eval(&self, key: Option<u64>) {
        self.evals.fetch_add(1, Ordering::Relaxed);
        if let Some(k) = key {
            self.inner.lock().unwrap().distinct.insert(k);
        }
    }
    pub fn count(&self, name: &str) {
        self.add(name, 1)
    }
    pub fn add(&self, name: &str, n: u64) {
        *self.inner.lock().unwrap().counters.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn get(&self, name: &str) -> u64 {
        *self.inner.lock().unwrap().counters.get(name).unwrap_or(&0)
    }
    pub fn sample(&self, j: J) {
        let mut g = self.inner.lock().unwrap();
        if g.samples.len() < 12 {
            g.samples.push(j);
        }
    }
    pub fn rule(&self, s: &str) {
        self.inner.lock().unwrap().rule = s.to_string();
    }
    pub fn assume(&self, s: &str) {
        self.inner.lock().unwrap().assumptions.push(s.to_string());
    }
    pub fn inconclusive(&self, s: &str) {
        self.inner.lock().unwrap().inconclusive.push(s.to_string());
    }
    pub fn violated(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn is_known(&self, sig: &str) -> bool {
        self.known.iter().any(|(s, _)| s == sig)
    }
    /// Report a violation. `sig` identifies what failed (input class + observation);
    /// a signature listed in the known-findings file is reported as such.
    pub fn violation(&self, sig: &str, detail: String) {
        let known = self.is_known(sig);
        let mut g = self.inner.lock().unwrap();
        if known {
            *g.known_hits.entry(sig.to_string()).or_insert(0) += 1;
            return;
        }
        if g.violations.len() < 16 && !g.violations.iter().any(|(s, _)| s == sig) {
            let mut d = detail;
            if d.len() > 4000 {
                let mut cut = 4000;
                while !d.is_char_boundary(cut) {
                    cut -= 1;
                }
                d.truncate(cut);
            }
            g.violations.push((sig.to_string(), d));
        }
        if std::env::var("VERIF_KEEPGOING").is_err() {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    /// assertion helper
    pub fn check(&self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violation(sig, detail());
        }
        ok
    }
    pub fn set_budget(&self, quick_s: u64, thorough_s: u64) {
        // VERIF_BUDGET overrides it (0: only the cases that always run, as on a very slow machine)
        let s = std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok());
        *self.budget.lock().unwrap() =
            Duration::from_secs(s.unwrap_or(if self.thorough() { thorough_s } else { quick_s }));
    }
    pub fn time_left(&self) -> bool {
        self.start.elapsed() < *self.budget.lock().unwrap()
    }
    /// Run cases 0..n on all cores, each with its own seeded generator. At least
    /// `min` cases always run; after that the wall-clock budget may stop the loop
    /// early (the evidence counts what really ran). A panic escaping a case is the
    /// code under test failing where the property says it must not.
    pub fn cases(&self, stream: &str, min: usize, n: usize, f: impl Fn(usize, &mut Rng) + Sync) {
        let next = AtomicUsize::new(0);
        let workers = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
        let only: Option<usize> = std::env::var("VERIF_CASE").ok().and_then(|s| s.parse().ok());
        std::thread::scope(|s| {
            for _ in 0..workers.min(n.max(1)) {
                let b = std::thread::Builder::new().stack_size(64 << 20);
                b.spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n || self.violated() || (i >= min && !self.time_left()) {
                        break;
                    }
                    if only.map_or(false, |o| o != i) {
                        continue;
                    }
                    let mut rng = self.rng(stream, i as u64);
                    if let Out::Panic(m) = guard(|| f(i, &mut rng)) {
                        self.violation(
                            &format!("{}:panic", stream),
                            format!("case {} of stream {} (seed {}) panicked: {}", i, stream, self.seed, m),
                        );
                    }
                })
                .unwrap();
            }
        });
    }
    /// Run a single-threaded section; a panic escaping it is a violation.
    pub fn section(&self, name: &str, f: impl FnOnce()) {
        if self.violated() {
            return;
        }
        if let Out::Panic(m) = guard(f) {
            self.violation(&format!("{}:panic", name), format!("section {} panicked: {}", name, m));
        }
    }
    /// Write evidence, print verdict lines, exit. `need` lists counters that must
    /// have been observed for the run to be conclusive.
    pub fn finish(self, need: &[(&str, u64)]) -> ! {
        let g = self.inner.into_inner().unwrap();
        let evals = self.evals.load(Ordering::SeqCst);
        let ev = json!({
            "property": self.property, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": g.distinct.len(),
                "rule": g.rule,
                "samples": g.samples,
                "observed": g.counters,
                "known_findings_seen": g.known_hits,
            },
            "assumptions": g.assumptions,
            "wall_s": (self.start.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
            "violations": g.violations.len(),
        });
        let _ = std::fs::create_dir_all("/verif/evidence");
        std::fs::write(
            format!("/verif/evidence/{}.json", self.property),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("write evidence");
        println!(
            "{} {} seed={} evaluations={} distinct={} wall={:.1}s",
            self.property,
            self.tier,
            self.seed,
            evals,
            g.distinct.len(),
            self.start.elapsed().as_secs_f64()
        );
        for (k, v) in &g.counters {
            println!("  observed {} = {}", k, v);
        }
        for (sig, desc) in &self.known {
            if g.known_hits.contains_key(sig) {
                println!("KNOWN-FINDING: property={} {}", self.property, desc);
            }
        }
        if !g.violations.is_empty() {
            for (sig, d) in &g.violations {
                let path = write_replay(
                    &self.property,
                    &json!({"property": self.property, "seed": self.seed, "tier": self.tier, "signature": sig, "detail": d,
                        "replay": format!("VERIF_SEED={} /verif/run.sh {} {}", self.seed, self.property, self.tier)}),
                );
                println!("  violated: {} :: {}", sig, d.chars().take(600).collect::<String>());
                println!("VIOLATION property={} replay={}", self.property, path);
            }
            std::process::exit(1);
        }
        let mut bad = g.inconclusive.clone();
        if std::env::var("VERIF_CASE").is_err() {
            for (n, min) in need {
                let v = *g.counters.get(*n).unwrap_or(&0);
                if v < *min {
                    bad.push(format!("observed {} = {} < {}", n, v, min));
                }
            }
        }
        if !bad.is_empty() {
            for b in bad {
                println!("INCONCLUSIVE: {}", b);
            }
            std::process::exit(3);
        }
        println!("HELD property={}", self.property);
        std::process::exit(0);
    }
}

fn load_known(prop: &str) -> Vec<(String, String)> {
    let path = concat!(env!("CARGO_MANIFEST_DIR"), "/../../known_findings.json");
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    let j: J = serde_json::from_str(&s).expect("known_findings.json");
    let mut out = vec![];
    if let Some(a) = j["findings"].as_array() {
        for f in a {
            if f["property"].as_str() == Some(prop) {
                for sig in f["signatures"].as_array().unwrap_or(&vec![]) {
                    out.push((
                        sig.as_str().unwrap_or("").to_string(),
                        f["what"].as_str().unwrap_or("").to_string(),
                    ));
                }
            }
        }
    }
    out
}
