//! Runs checks: generates cases, evaluates them, shrinks failures, counts what was covered.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {}, expected {}", format!($($m)*), $crate::engine::short(a), $crate::engine::short(b)));
        }
    }};
}

pub fn short<T: Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.len() > 1500 {
        format!("{}...", s.chars().take(1500).collect::<String>())
    } else {
        s
    }
}

/// What one evaluation reports about its case.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// Oracle comparisons made.
    pub compared: u64,
}

impl Ctx {
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub compared: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
}

impl Stats {
    fn note(&mut self, text: &str, ctx: &Ctx, sample: bool) {
        self.evaluations += 1;
        self.compared += ctx.compared;
        for l in &ctx.labels {
            *self.labels.entry(l).or_default() += 1;
        }
        if ctx.nontrivial {
            self.nontrivial += 1;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            text.hash(&mut h);
            self.distinct.insert(h.finish());
            if sample && self.samples.len() < 2 && text.len() < 4000 {
                self.samples.push(serde_json::from_str(text).unwrap());
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.compared += o.compared;
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
    }
}

#[derive(Debug, Clone)]
pub struct Failure {
    pub from: u64,
    pub message: String,
    pub case: Value,
    pub shrinks: u64,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked: {msg}{loc}")));
    }));
}

/// Runs `f`, turning a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panicked".to_string())
    })
}

/// What a thread is evaluating.
struct Busy {
    since: Instant,
    check: &'static str,
    case: String,
}

type Slot = Arc<Mutex<Option<Busy>>>;

static SLOTS: Mutex<Vec<Slot>> = Mutex::new(Vec::new());
/// Where to write every case before it is evaluated.
static TRACE: OnceLock<std::path::PathBuf> = OnceLock::new();

pub fn trace_to(dir: &str) {
    TRACE.set(dir.into()).expect("set once");
}

thread_local! {
    static SLOT: (usize, Slot) = {
        let slot = Slot::default();
        let mut all = SLOTS.lock().unwrap();
        all.push(slot.clone());
        (all.len(), slot)
    };
    static CHECK: Cell<(&'static str, &'static str)> = const { Cell::new(("", "")) };
}

/// Names the property and check this thread works on.
pub fn working_on(property: &'static str, check: &'static str) {
    CHECK.with(|c| c.set((property, check)));
}

fn document(property: &str, check: &str, message: &str, case: &str) -> String {
    let case: Value = serde_json::from_str(case).unwrap();
    let v = json!({"property": property, "check": check, "message": message, "case": case});
    serde_json::to_string_pretty(&v).unwrap()
}

/// Ends the process with status 3 once a case has run for `limit`, after writing the cases that
/// ran too long into `dir`.
pub fn watch(property: String, limit: Duration, dir: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let slots: Vec<Slot> = SLOTS.lock().unwrap().clone();
        let busy: Vec<_> = slots.iter().map(|s| s.lock().unwrap()).collect();
        let busy = || busy.iter().filter_map(|b| b.as_ref());
        let mut late = 0;
        if busy().any(|b| b.since.elapsed() > limit) {
            for b in busy().filter(|b| b.since.elapsed() > limit / 2) {
                let text = document(&property, b.check, "does not end", &b.case);
                let _ = std::fs::write(format!("{dir}/late-{late}.json"), text);
                late += 1;
            }
        }
        if late > 0 {
            std::process::exit(3);
        }
    });
}

fn evaluate<T: Serialize>(check: fn(&T, &mut Ctx) -> R, case: &T) -> (R, Ctx, String) {
    let text = serde_json::to_string(case).unwrap();
    SLOT.with(|(n, slot)| {
        let (property, check) = CHECK.with(|c| c.get());
        if let Some(dir) = TRACE.get() {
            let doc = document(property, check, "the process died", &text);
            let _ = std::fs::write(dir.join(format!("trace-{n}.json")), doc);
        }
        *slot.lock().unwrap() = Some(Busy { since: Instant::now(), check, case: text.clone() });
    });
    let mut ctx = Ctx::default();
    let r = match guarded(|| check(case, &mut ctx)) {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    SLOT.with(|(n, slot)| {
        *slot.lock().unwrap() = None;
        if let Some(dir) = TRACE.get() {
            let _ = std::fs::remove_file(dir.join(format!("trace-{n}.json")));
        }
    });
    (r, ctx, text)
}

pub trait Case: Clone + Debug + Serialize + DeserializeOwned + 'static {}
impl<T: Clone + Debug + Serialize + DeserializeOwned + 'static> Case for T {}

pub trait Body: Send + Sync {
    /// Runs `cases` cases, of which the first has number `from`.
    fn chunk(&self, seed: [u8; 32], from: u64, cases: u64, stats: &mut Stats) -> Option<Failure>;
    fn replay(&self, case: &Value) -> Result<R, String>;
    /// One fuzzer input; `None` if it held (or could not be decoded).
    fn fuzz(&self, data: &[u8], stats: &mut Stats) -> Option<Failure>;
    /// The case that a fuzzer input stands for.
    fn decode(&self, data: &[u8]) -> Option<Value>;
    fn enumerated(&self) -> bool {
        false
    }
    /// Generates case number `n` of a seed without evaluating it.
    fn generate(&self, seed: [u8; 32], cases: u64) -> Vec<Value>;
}

struct Prop<T: Case> {
    strategy: fn() -> BoxedStrategy<T>,
    check: fn(&T, &mut Ctx) -> R,
}

fn runner(seed: [u8; 32]) -> TestRunner {
    let config = Config {
        failure_persistence: None,
        rng_algorithm: RngAlgorithm::ChaCha,
        max_local_rejects: 1_000_000,
        ..Config::default()
    };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed))
}

/// A generator that takes its random choices from a fuzzer's input.
fn bytes_runner(data: &[u8]) -> TestRunner {
    let config = Config { failure_persistence: None, max_local_rejects: 10_000, ..Config::default() };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::PassThrough, data))
}

const SHRINK_STEPS: u64 = 20_000;
const SHRINK_TIME: Duration = Duration::from_secs(40);

impl<T: Case> Prop<T> {
    fn shrink(&self, tree: &mut dyn ValueTree<Value = T>, first: String, from: u64) -> Failure {
        let mut best = tree.current();
        let mut message = first;
        let start = Instant::now();
        let mut steps = 0;
        let mut shrinks = 0;
        if tree.simplify() {
            loop {
                steps += 1;
                if steps > SHRINK_STEPS || start.elapsed() > SHRINK_TIME {
                    break;
                }
                let case = tree.current();
                let (r, ..) = evaluate(self.check, &case);
                match r {
                    Err(m) => {
                        best = case;
                        message = m;
                        shrinks += 1;
                        if !tree.simplify() {
                            break;
                        }
                    }
                    Ok(()) => {
                        if !tree.complicate() {
                            break;
                        }
                    }
                }
            }
        }
        Failure { from, message, case: serde_json::to_value(&best).unwrap(), shrinks }
    }
}

impl<T: Case> Body for Prop<T> {
    fn chunk(&self, seed: [u8; 32], from: u64, cases: u64, stats: &mut Stats) -> Option<Failure> {
        let mut runner = runner(seed);
        let strategy = (self.strategy)();
        for _ in 0..cases {
            let mut tree = strategy.new_tree(&mut runner).expect("generator");
            let case = tree.current();
            let (r, ctx, text) = evaluate(self.check, &case);
            stats.note(&text, &ctx, from == 0);
            if let Err(m) = r {
                return Some(self.shrink(&mut tree, m, from));
            }
        }
        None
    }

    fn replay(&self, case: &Value) -> Result<R, String> {
        let case: T = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        Ok(evaluate(self.check, &case).0)
    }

    fn fuzz(&self, data: &[u8], stats: &mut Stats) -> Option<Failure> {
        let (strategy, mut runner) = ((self.strategy)(), bytes_runner(data));
        let mut tree = strategy.new_tree(&mut runner).ok()?;
        let case = tree.current();
        let (r, ctx, text) = evaluate(self.check, &case);
        stats.note(&text, &ctx, stats.evaluations > 2000);
        r.err().map(|m| self.shrink(&mut tree, m, 0))
    }

    fn decode(&self, data: &[u8]) -> Option<Value> {
        let tree = (self.strategy)().new_tree(&mut bytes_runner(data)).ok()?;
        Some(serde_json::to_value(tree.current()).unwrap())
    }

    fn generate(&self, seed: [u8; 32], cases: u64) -> Vec<Value> {
        let mut runner = runner(seed);
        let strategy = (self.strategy)();
        (0..cases)
            .map(|_| {
                let case = strategy.new_tree(&mut runner).expect("generator").current();
                serde_json::to_value(&case).unwrap()
            })
            .collect()
    }
}

struct Enumerated<T: Case> {
    make: fn(u64) -> T,
    check: fn(&T, &mut Ctx) -> R,
}

impl<T: Case> Body for Enumerated<T> {
    fn chunk(&self, _: [u8; 32], from: u64, cases: u64, stats: &mut Stats) -> Option<Failure> {
        for i in 0..cases {
            let case = (self.make)(from + i);
            let (r, ctx, text) = evaluate(self.check, &case);
            stats.note(&text, &ctx, from == 0);
            if let Err(message) = r {
                let case = serde_json::to_value(&case).unwrap();
                return Some(Failure { from, message, case, shrinks: 0 });
            }
        }
        None
    }

    fn replay(&self, case: &Value) -> Result<R, String> {
        let case: T = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        Ok(evaluate(self.check, &case).0)
    }

    fn fuzz(&self, _: &[u8], _: &mut Stats) -> Option<Failure> {
        None
    }

    fn decode(&self, _: &[u8]) -> Option<Value> {
        None
    }

    fn enumerated(&self) -> bool {
        true
    }

    fn generate(&self, _: [u8; 32], cases: u64) -> Vec<Value> {
        (0..cases).map(|i| serde_json::to_value((self.make)(i)).unwrap()).collect()
    }
}

pub struct Sub {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub body: Box<dyn Body>,
}

/// A randomly generated sub-check: `quick`/`thorough` cases from `strategy`.
pub fn sub<T: Case>(
    name: &'static str,
    rule: &'static str,
    quick: u64,
    thorough: u64,
    strategy: fn() -> BoxedStrategy<T>,
    check: fn(&T, &mut Ctx) -> R,
) -> Sub {
    Sub { name, rule, quick, thorough, body: Box::new(Prop { strategy, check }) }
}

/// An enumerated sub-check: cases `make(0)`, `make(1)`, ... in every run.
pub fn enumerate<T: Case>(
    name: &'static str,
    rule: &'static str,
    quick: u64,
    thorough: u64,
    make: fn(u64) -> T,
    check: fn(&T, &mut Ctx) -> R,
) -> Sub {
    Sub { name, rule, quick, thorough, body: Box::new(Enumerated { make, check }) }
}

pub struct Property {
    pub id: &'static str,
    pub subs: Vec<Sub>,
}

pub fn derive_seed(parts: &[&str]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update((p.len() as u64).to_be_bytes());
        h.update(p.as_bytes());
    }
    h.finalize().into()
}

pub struct RunCfg<'a> {
    pub thorough: bool,
    pub seed: u64,
    pub config: &'a str,
    /// Share of the generated (not enumerated) cases this run takes.
    pub share: f64,
    pub enum_share: f64,
    pub threads: usize,
}

/// What was covered, for the evidence.
pub fn coverage(sub: &Sub, stats: &Stats, seconds: f64) -> Value {
    json!({
        "check": sub.name,
        "rule": sub.rule,
        "enumerated": sub.body.enumerated(),
        "evaluations": stats.evaluations,
        "nontrivial": stats.nontrivial,
        "distinct_nontrivial": stats.distinct.len(),
        "comparisons": stats.compared,
        "labels": stats.labels,
        "samples": stats.samples,
        "wall_s": (seconds * 1000.0).round() / 1000.0,
    })
}

pub struct SubReport {
    pub value: Value,
    pub failure: Option<Failure>,
}

pub fn run_sub(prop: &'static str, sub: &Sub, cfg: &RunCfg) -> SubReport {
    let total = if cfg.thorough { sub.thorough } else { sub.quick };
    let total = if sub.body.enumerated() {
        (total as f64 * cfg.enum_share).ceil() as u64
    } else {
        (total as f64 * cfg.share).ceil() as u64
    };
    let size = (total / 256).clamp(1, 32);
    let chunks = total.div_ceil(size);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let merged = Mutex::new((Stats::default(), Vec::<Failure>::new()));
    let start = Instant::now();
    let seed_text = cfg.seed.to_string();
    std::thread::scope(|s| {
        for _ in 0..cfg.threads {
            s.spawn(|| {
                working_on(prop, sub.name);
                let mut stats = Stats::default();
                let mut failures = Vec::new();
                while !stop.load(Ordering::Relaxed) {
                    let chunk = next.fetch_add(1, Ordering::Relaxed);
                    if chunk >= chunks {
                        break;
                    }
                    let cases = size.min(total - chunk * size);
                    let seed =
                        derive_seed(&[&seed_text, prop, sub.name, cfg.config, &chunk.to_string()]);
                    if let Some(f) = sub.body.chunk(seed, chunk * size, cases, &mut stats) {
                        failures.push(f);
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                let mut m = merged.lock().unwrap();
                m.0.merge(stats);
                m.1.append(&mut failures);
            });
        }
    });
    let (stats, mut failures) = merged.into_inner().unwrap();
    failures.sort_by_key(|f| f.from);
    let value = coverage(sub, &stats, start.elapsed().as_secs_f64());
    SubReport { value, failure: failures.into_iter().next() }
}
