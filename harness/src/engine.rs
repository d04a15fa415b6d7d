//! Choice-sequence property-testing engine.
//!
//! Every random decision of a generator is one bounded integer drawn from `Src` and recorded.
//! A case is therefore a sequence of integers: it can be replayed, shrunk (by deleting,
//! zeroing and lowering integers) and produced by other means (a coverage-guided fuzzer).

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 8;
const MAX_DRAWS: usize = 4_000_000;

// ---------------------------------------------------------------- random numbers

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng([splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let result = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        result
    }
}

/// FNV-1a; a fixed hash so that runs are a pure function of code and seed.
#[derive(Clone)]
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Fnv { Fnv(0xcbf2_9ce4_8422_2325) }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        splitmix(&mut x)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(value: &T) -> u64 {
    let mut h = Fnv::default();
    value.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- choices

pub struct Src {
    prefix: Vec<u64>,
    pos: usize,
    /// Without a generator, choices past the prefix are 0 (the simplest one).
    rng: Option<Rng>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(rng: Rng) -> Src {
        Src { prefix: Vec::new(), pos: 0, rng: Some(rng), rec: Vec::new() }
    }
    pub fn replay(prefix: Vec<u64>) -> Src {
        Src { prefix, pos: 0, rng: None, rec: Vec::new() }
    }
    /// A value in `0..n`; 0 is the simplest.
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let raw = if self.pos < self.prefix.len() {
            let v = self.prefix[self.pos];
            self.pos += 1;
            if v < n { v } else { v % n }
        } else if self.rec.len() > MAX_DRAWS {
            0
        } else {
            match self.rng {
                Some(ref mut rng) => {
                    // multiply-shift, bias negligible for our small n
                    ((u128::from(rng.next()) * u128::from(n)) >> 64) as u64
                }
                None => 0,
            }
        };
        if self.rec.len() <= MAX_DRAWS {
            self.rec.push(raw);
        }
        raw
    }
    pub fn below(&mut self, n: usize) -> usize { self.draw(n as u64) as usize }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    /// True with probability `num / den`; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.draw(den) >= den - num }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T { &items[self.below(items.len())] }
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|w| u64::from(*w)).sum();
        let mut v = self.draw(total.max(1));
        for (i, w) in weights.iter().enumerate() {
            if v < u64::from(*w) {
                return i;
            }
            v -= u64::from(*w);
        }
        0
    }
    /// List continuation flag: expected list length `mean`.
    pub fn more(&mut self, mean: u64) -> bool { self.chance(mean * 4, mean * 4 + 4) }
    /// Mostly small sizes, sometimes one around a power-of-two boundary, up to `cap`.
    pub fn size(&mut self, small: usize, cap: usize) -> usize {
        const EDGES: &[usize] = &[
            7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256,
            257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191,
            8192, 8193, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537,
        ];
        if self.chance(1, 12) {
            let usable = EDGES.iter().take_while(|e| **e <= cap).count();
            if usable > 0 {
                return EDGES[self.below(usable)];
            }
        }
        self.range(0, small.min(cap))
    }
}

// ---------------------------------------------------------------- case context

pub enum Stop {
    /// The property is violated by this case.
    Fail(String),
    /// The harness itself is wrong (never reported as a violation).
    Harness(String),
    /// The case is set aside, by a stated rule (a known finding, or a result too large to handle).
    Excluded(&'static str),
}
pub type Res = Result<(), Stop>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Stop> { Err(Stop::Fail(msg.into())) }

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return Err($crate::engine::Stop::Fail(format!($($arg)*))); }
    };
}

pub struct Ctx<'a> {
    pub src: Src,
    /// Index of the case inside its part (for enumerating parts).
    pub index: u64,
    pub thorough: bool,
    nontrivial: bool,
    key: Fnv,
    notes: Vec<String>,
    want_notes: bool,
    classes: &'a mut BTreeMap<&'static str, u64>,
}

impl<'a> Ctx<'a> {
    pub fn classify(&mut self, name: &'static str) { *self.classes.entry(name).or_insert(0) += 1; }
    pub fn classify_if(&mut self, cond: bool, name: &'static str) {
        if cond {
            self.classify(name)
        }
    }
    pub fn nontrivial(&mut self, cond: bool) { self.nontrivial |= cond }
    /// Mix the generated input into the identity of this case.
    pub fn input<T: Hash + ?Sized>(&mut self, value: &T) { value.hash(&mut self.key) }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_notes {
            self.notes.push(f())
        }
    }
}

pub type CaseFn = fn(&mut Ctx) -> Res;

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub parts: Vec<Part>,
    pub assumptions: &'static [&'static str],
    /// Known findings of this property: (finding id, what fails, does it still fail?).
    pub findings: Vec<(&'static str, &'static str, fn() -> bool)>,
    /// Set when some part covers its finite space completely.
    pub exhaustive_parts: &'static [&'static str],
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Run `f`, turning a panic into `Err((message, location))`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| ("?".into(), "?".into()))),
    }
}

/// Where the parent process finds out which cases were running when this one died.
static PROGRESS: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();

fn progress() -> Option<&'static std::fs::File> {
    PROGRESS
        .get_or_init(|| {
            let path = std::env::var_os("FUSER_PBT_PROGRESS")?;
            std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(path).ok()
        })
        .as_ref()
}
fn record(slot: u64, part: u64, index: u64) {
    use std::os::unix::fs::FileExt;
    if let Some(file) = progress() {
        let mut bytes = [0u8; 16];
        bytes[..8].copy_from_slice(&(part + 1).to_le_bytes());
        bytes[8..].copy_from_slice(&index.to_le_bytes());
        let _ = file.write_all_at(&bytes, slot * 16);
    }
}

pub fn is_harness_location(loc: &str) -> bool {
    // Our own files are compiled with relative paths (src/...); the library is a path
    // dependency and shows up with an absolute path, the standard library as /rustc/...
    loc.starts_with("src/") || loc.contains("/verif/harness/") || loc.contains("/verif/fuzz/")
}

// ---------------------------------------------------------------- running cases

struct Outcome {
    stop: Option<Stop>,
    rec: Vec<u64>,
    nontrivial: bool,
    key: u64,
    notes: Vec<String>,
}

fn run_case(
    f: CaseFn,
    src: Src,
    index: u64,
    thorough: bool,
    want_notes: bool,
    classes: &mut BTreeMap<&'static str, u64>,
) -> Outcome {
    let mut ctx = Ctx {
        src,
        index,
        thorough,
        nontrivial: false,
        key: Fnv::default(),
        notes: Vec::new(),
        want_notes,
        classes,
    };
    crate::gen::fresh_vocab();
    let stop = match catch(|| f(&mut ctx)) {
        Ok(Ok(())) => None,
        Ok(Err(stop)) => Some(stop),
        Err((msg, loc)) => Some(if is_harness_location(&loc) {
            Stop::Harness(format!("harness panicked at {}: {}", loc, msg))
        } else {
            Stop::Fail(format!("the library panicked at {}: {}", loc, msg))
        }),
    };
    Outcome {
        stop,
        nontrivial: ctx.nontrivial,
        key: ctx.key.finish(),
        notes: ctx.notes,
        rec: ctx.src.rec,
    }
}

fn case_seed(seed: u64, id: &str, part: &str, index: u64) -> u64 { hash_of(&(seed, id, part, index)) }

#[derive(Default)]
struct ShardStats {
    evaluations: u64,
    excluded: BTreeMap<&'static str, u64>,
    classes: BTreeMap<&'static str, u64>,
    keys: HashSet<u64>,
    nontrivial: u64,
    samples: Vec<(u64, String)>,
    draws: u64,
    slowest: (Duration, u64),
}

/// Identities kept per shard and part; past this, further cases are not counted as distinct.
const MAX_KEYS: usize = 3_000_000;

pub struct Failure {
    pub part: &'static str,
    pub index: u64,
    pub message: String,
    pub choices: Vec<u64>,
    pub notes: Vec<String>,
}

pub struct PartReport {
    pub name: &'static str,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub draws: u64,
}

pub struct Report {
    pub parts: Vec<PartReport>,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub classes: BTreeMap<&'static str, u64>,
    pub excluded: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub wall: f64,
    pub failure: Option<Failure>,
    pub harness_error: Option<String>,
}

static HEARTBEAT: [AtomicU64; SHARDS as usize] = [const { AtomicU64::new(0) }; SHARDS as usize];
static WATCHDOG_ON: AtomicBool = AtomicBool::new(false);

/// Exit status of a process which stopped because a case does not end.
pub const STUCK: i32 = 3;
/// A case that runs for longer is looked at by the supervising process, on its own.
const PATIENCE: Duration = Duration::from_secs(90);
/// Shrinking stops itself before; if it cannot, the failure is reported as it was found.
static SHRINKING: AtomicBool = AtomicBool::new(false);

/// A stuck case ends the process; the parent then finds out what it is.
fn start_watchdog() {
    if WATCHDOG_ON.swap(true, Ordering::SeqCst) {
        return;
    }
    std::thread::spawn(|| {
        let mut last = [0u64; SHARDS as usize];
        let mut since = [Instant::now(); SHARDS as usize];
        let mut shrinking: Option<Instant> = None;
        loop {
            std::thread::sleep(Duration::from_secs(1));
            for s in 0..SHARDS as usize {
                let now = HEARTBEAT[s].load(Ordering::Relaxed);
                if now != last[s] || now == u64::MAX || now == 0 {
                    last[s] = now;
                    since[s] = Instant::now();
                } else if since[s].elapsed() > PATIENCE {
                    println!("a case takes long (shard {}, beat {})", s, now);
                    std::process::exit(STUCK);
                }
            }
            if SHRINKING.load(Ordering::SeqCst) {
                let start = *shrinking.get_or_insert_with(Instant::now);
                if start.elapsed() > 2 * PATIENCE {
                    println!("shrinking takes long");
                    std::process::exit(STUCK);
                }
            }
        }
    });
}

pub fn run_check(check: &Check, seed: u64, thorough: bool) -> Report {
    start_watchdog();
    let begin = Instant::now();
    let mut report = Report {
        wall: 0.0,
        parts: Vec::new(),
        evaluations: 0,
        distinct_nontrivial: 0,
        classes: BTreeMap::new(),
        excluded: BTreeMap::new(),
        samples: Vec::new(),
        failure: None,
        harness_error: None,
    };
    for (part_index, part) in check.parts.iter().enumerate() {
        let part_start = Instant::now();
        let total = if thorough { part.thorough } else { part.quick };
        let first_bad = Arc::new(AtomicU64::new(u64::MAX));
        let bad: Arc<Mutex<Option<(u64, Stop, Vec<u64>)>>> = Arc::new(Mutex::new(None));
        let mut handles = Vec::new();
        for shard in 0..SHARDS {
            let first_bad = first_bad.clone();
            let bad = bad.clone();
            let (id, name, run) = (check.id, part.name, part.run);
            handles.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        let mut st = ShardStats::default();
                        let mut index = shard;
                        while index < total && index < first_bad.load(Ordering::SeqCst) {
                            HEARTBEAT[shard as usize].store(index + 1, Ordering::Relaxed);
                            record(shard, part_index as u64, index);
                            let src = Src::random(Rng::new(case_seed(seed, id, name, index)));
                            // the notes of a few cases become the samples of the evidence
                            let want = st.samples.len() < 2 && index % 5 != 1;
                            let start = Instant::now();
                            let out = run_case(run, src, index, thorough, want, &mut st.classes);
                            st.slowest = st.slowest.max((start.elapsed(), index));
                            st.evaluations += 1;
                            st.draws += out.rec.len() as u64;
                            match out.stop {
                                None => {
                                    if out.nontrivial {
                                        st.nontrivial += 1;
                                        if st.keys.len() < MAX_KEYS {
                                            st.keys.insert(out.key);
                                        }
                                        if want && !out.notes.is_empty() {
                                            let mut text = out.notes.join(" | ");
                                            if text.len() > 500 {
                                                let mut cut = 500;
                                                while !text.is_char_boundary(cut) {
                                                    cut -= 1;
                                                }
                                                text.truncate(cut);
                                                text.push_str("...");
                                            }
                                            st.samples.push((index, text));
                                        }
                                    }
                                }
                                Some(Stop::Excluded(why)) => {
                                    *st.excluded.entry(why).or_insert(0) += 1;
                                }
                                Some(stop) => {
                                    let mut slot = bad.lock().unwrap();
                                    let better = match *slot {
                                        None => true,
                                        Some((i, _, _)) => index < i,
                                    };
                                    if better {
                                        *slot = Some((index, stop, out.rec));
                                        first_bad.store(index, Ordering::SeqCst);
                                    }
                                    break;
                                }
                            }
                            index += SHARDS;
                        }
                        HEARTBEAT[shard as usize].store(u64::MAX, Ordering::Relaxed);
                        st
                    })
                    .expect("spawn"),
            );
        }
        let mut keys: HashSet<u64> = HashSet::new();
        let mut pr = PartReport { name: part.name, evaluations: 0, nontrivial: 0, draws: 0 };
        let mut samples = Vec::new();
        let mut slowest = (Duration::default(), 0);
        for handle in handles {
            let st = handle.join().expect("shard");
            slowest = slowest.max(st.slowest);
            pr.evaluations += st.evaluations;
            pr.nontrivial += st.nontrivial;
            pr.draws += st.draws;
            keys.extend(st.keys);
            samples.extend(st.samples);
            for (k, v) in st.classes {
                *report.classes.entry(k).or_insert(0) += v;
            }
            for (k, v) in st.excluded {
                *report.excluded.entry(k).or_insert(0) += v;
            }
        }
        if std::env::var_os("FUSER_TIMES").is_some() {
            eprintln!("{} part {:?}: {:.1} s, slowest case {} with {:.1} s", check.id, part.name, part_start.elapsed().as_secs_f64(), slowest.1, slowest.0.as_secs_f64());
        }
        samples.sort();
        for (_, s) in samples.into_iter().take(4) {
            report.samples.push(format!("[{}] {}", part.name, s));
        }
        report.evaluations += pr.evaluations;
        report.distinct_nontrivial += keys.len() as u64;
        report.parts.push(pr);
        let found = bad.lock().unwrap().take();
        if let Some((index, stop, choices)) = found {
            match stop {
                Stop::Harness(msg) => {
                    report.harness_error =
                        Some(format!("{} part {} case {}: {}", check.id, part.name, index, msg));
                }
                Stop::Fail(msg) => {
                    // should shrinking kill the process, the parent knows about the failure
                    record(SHARDS, part_index as u64, index);
                    SHRINKING.store(true, Ordering::SeqCst);
                    report.failure = Some(shrink(part, index, choices, msg, thorough));
                }
                Stop::Excluded(_) => unreachable!(),
            }
            report.wall = begin.elapsed().as_secs_f64();
            return report;
        }
    }
    report.wall = begin.elapsed().as_secs_f64();
    report
}

/// Run one case as `run_check` would; used to find the case that killed a process.
pub fn run_single(check: &Check, part: usize, index: u64, seed: u64, thorough: bool) -> Option<String> {
    let p = &check.parts[part];
    let (id, name, run) = (check.id, p.name, p.run);
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let src = Src::random(Rng::new(case_seed(seed, id, name, index)));
            let mut classes = BTreeMap::new();
            match run_case(run, src, index, thorough, false, &mut classes).stop {
                Some(Stop::Fail(m)) => Some(m),
                _ => None,
            }
        })
        .expect("spawn")
        .join()
        .expect("single")
}

// ---------------------------------------------------------------- shrinking

/// Shrinking is a convenience; it must not take long.
fn spend(budget: &mut i64, started: &Instant) {
    *budget -= 1;
    if started.elapsed() > Duration::from_secs(40) {
        *budget = 0;
    }
}

fn still_fails(part: &Part, index: u64, choices: &[u64], thorough: bool) -> Option<(String, Vec<u64>)> {
    let mut classes = BTreeMap::new();
    let out = run_case(part.run, Src::replay(choices.to_vec()), index, thorough, false, &mut classes);
    match out.stop {
        Some(Stop::Fail(msg)) => Some((msg, out.rec)),
        _ => None,
    }
}

fn smaller(a: &[u64], b: &[u64]) -> bool { (a.len(), a) < (b.len(), b) }

fn shrink(part: &Part, index: u64, choices: Vec<u64>, msg: String, thorough: bool) -> Failure {
    let part2 = Part { name: part.name, quick: part.quick, thorough: part.thorough, run: part.run };
    // same stack as the shards
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || shrink_inner(&part2, index, choices, msg, thorough))
        .expect("spawn")
        .join()
        .expect("shrink")
}

fn shrink_inner(part: &Part, index: u64, choices: Vec<u64>, msg: String, thorough: bool) -> Failure {
    let mut best = choices;
    let mut best_msg = msg;
    let mut budget: i64 = if best.len() > 20_000 { 300 } else { 6000 };
    HEARTBEAT[0].store(0, Ordering::Relaxed);
    let mut improved = true;
    let started = Instant::now();
    while improved && budget > 0 {
        improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && budget > 0 {
            let mut at = best.len().saturating_sub(size) as i64;
            while at >= 0 && budget > 0 {
                let a = at as usize;
                if a + size <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(a..a + size);
                    spend(&mut budget, &started);
                    if let Some((m, rec)) = still_fails(part, index, &cand, thorough) {
                        let next = if smaller(&rec, &cand) { rec } else { cand };
                        if smaller(&next, &best) {
                            best = next;
                            best_msg = m;
                            improved = true;
                        }
                    }
                }
                at -= size as i64;
            }
            size /= 2;
        }
        // zero chunks, then lower single values
        for size in [8usize, 4, 2, 1] {
            let mut a = 0;
            while a + size <= best.len() && budget > 0 {
                if best[a..a + size].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    for v in &mut cand[a..a + size] {
                        *v = 0;
                    }
                    spend(&mut budget, &started);
                    if let Some((m, rec)) = still_fails(part, index, &cand, thorough) {
                        let next = if smaller(&rec, &cand) { rec } else { cand };
                        if smaller(&next, &best) {
                            best = next;
                            best_msg = m;
                            improved = true;
                        }
                    }
                }
                a += size;
            }
        }
        let mut a = 0;
        while a < best.len() && budget > 0 {
            let (mut lo, mut hi) = (0u64, best[a]);
            while lo < hi && budget > 0 {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[a] = mid;
                spend(&mut budget, &started);
                match still_fails(part, index, &cand, thorough) {
                    Some((m, _)) => {
                        best = cand;
                        best_msg = m;
                        improved = true;
                        hi = mid;
                    }
                    None => lo = mid + 1,
                }
            }
            a += 1;
        }
    }
    let mut classes = BTreeMap::new();
    let out = run_case(part.run, Src::replay(best.clone()), index, thorough, true, &mut classes);
    Failure { part: part.name, index, message: best_msg, choices: best, notes: out.notes }
}

/// Replay a stored case: `Some(message)` if it still fails.
pub fn replay(part: &Part, index: u64, choices: Vec<u64>, thorough: bool) -> (Option<String>, Vec<String>) {
    let mut classes = BTreeMap::new();
    let out = run_case(part.run, Src::replay(choices), index, thorough, true, &mut classes);
    let msg = match out.stop {
        None | Some(Stop::Excluded(_)) => None,
        Some(Stop::Fail(m)) => Some(m),
        Some(Stop::Harness(m)) => Some(format!("HARNESS ERROR {}", m)),
    };
    (msg, out.notes)
}

/// Run one case from fuzzer bytes; panics on a violation (for coverage-guided fuzzing).
pub fn fuzz_bytes(part: &Part, data: &[u8]) {
    // Decode: bytes below 0xf0 are a choice, higher ones start a two-byte choice.
    let mut choices = Vec::with_capacity(data.len());
    let mut i = 0;
    while i < data.len() {
        if data[i] < 0xf0 || i + 2 >= data.len() {
            choices.push(u64::from(data[i]));
            i += 1;
        } else {
            choices.push(u64::from(data[i + 1]) << 8 | u64::from(data[i + 2]));
            i += 3;
        }
    }
    let mut classes = BTreeMap::new();
    let out = run_case(part.run, Src::replay(choices.clone()), 0, true, false, &mut classes);
    if let Some(Stop::Fail(msg)) = out.stop {
        eprintln!("VIOLATION-CHOICES {:?}\n{}", choices, msg);
        std::process::abort();
    }
}
