//! Runs facets: a facet is a generator plus an executable oracle. Several
//! facets decide one property.
use crate::vclock;
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// What a check tells the engine about the case it just ran.
#[derive(Default)]
pub struct Obs {
    nontrivial: bool,
    labels: Vec<String>,
}
impl Obs {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn label<T: Into<String>>(&mut self, l: T) {
        let l = l.into();
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if<T: Into<String>>(&mut self, c: bool, l: T) {
        if c {
            self.label(l)
        }
    }
}

pub type Res = Result<(), String>;

/// Marks an outcome that says nothing about the property (a real-time
/// watchdog): the run ends as an error, never as a violation.
pub const INCONCLUSIVE: &str = "INCONCLUSIVE: ";

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)); }
    }};
}

pub struct Violation {
    pub facet: String,
    pub message: String,
    pub case_json: String,
    pub case_debug: String,
}

#[derive(Default)]
pub struct FacetReport {
    pub name: String,
    pub rule: String,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub violation: Option<Violation>,
    pub error: Option<String>,
    pub wall_s: f64,
}

pub struct RunCfg {
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub prop: String,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Clock {
    /// every case has its own virtual clock; cases run on 8 threads
    Local,
    /// one virtual clock for all threads of the case; cases run one by one
    Global,
    /// the real clock, which waits on locks and channels with a time limit
    /// need; cases run one by one
    Real,
}

pub struct Facet {
    pub name: &'static str,
    pub rule: &'static str,
    run: Box<dyn Fn(&RunCfg) -> FacetReport>,
    replay: Box<dyn Fn(&str) -> Result<Res, String>>,
}

impl Facet {
    pub fn run(&self, cfg: &RunCfg) -> FacetReport {
        (self.run)(cfg)
    }
    pub fn replay(&self, case: &str) -> Result<Res, String> {
        (self.replay)(case)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static FOREIGN_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub fn take_foreign_panics() -> Vec<String> {
    std::mem::take(&mut *FOREIGN_PANICS.lock().unwrap())
}

/// progress counter for the watchdog
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

/// The case a harness thread is working on, for the watchdog.
pub struct Running {
    pub facet: &'static str,
    pub case_json: Box<dyn Fn() -> String + Send>,
    pub cpu_clock: libc::clockid_t,
    /// CPU time of the thread and of the process when the case began
    pub thread_cpu: u64,
    pub process_cpu: u64,
    pub serial: u64,
}
pub static RUNNING: Mutex<BTreeMap<u32, Running>> = Mutex::new(BTreeMap::new());
static SERIAL: AtomicU64 = AtomicU64::new(0);

fn begin_case(shard: u32, facet: &'static str, case_json: Box<dyn Fn() -> String + Send>) {
    let cpu_clock = unsafe {
        let mut c: libc::clockid_t = 0;
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
        c
    };
    let r = Running {
        facet,
        case_json,
        cpu_clock,
        thread_cpu: vclock::cpu_ns(cpu_clock),
        process_cpu: vclock::cpu_ns(libc::CLOCK_PROCESS_CPUTIME_ID),
        serial: SERIAL.fetch_add(1, SeqCst),
    };
    RUNNING.lock().unwrap().insert(shard, r);
}
fn end_case(shard: u32) {
    RUNNING.lock().unwrap().remove(&shard);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        let name = std::thread::current().name().map(|s| s.to_string()).unwrap_or_default();
        if name == "main" || name.starts_with("mxshard") {
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
        } else if let Ok(mut g) = FOREIGN_PANICS.lock() {
            g.push(format!("[{}] {}", name, text));
        }
    }));
}

/// Runs `f`, turning a panic into an error message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
    })
}

fn run_case<V>(clock: Clock, check: fn(&V, &mut Obs) -> Res, v: &V, obs: &mut Obs) -> Res {
    PROGRESS.fetch_add(1, SeqCst);
    match clock {
        Clock::Local => vclock::tls_enter(vclock::START_NS),
        Clock::Global => {
            let _ = take_foreign_panics();
            vclock::global_enter(vclock::START_NS, true)
        }
        Clock::Real => {
            let _ = take_foreign_panics();
        }
    }
    let r = guarded(|| check(v, obs));
    match clock {
        Clock::Local => vclock::tls_leave(),
        Clock::Global => vclock::global_leave(),
        Clock::Real => {}
    }
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("the code under test panicked: {}", p)),
    }
}

fn mix(parts: &[u64]) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut h: u64 = 0x9E37_79B9_7F4A_7C15;
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        for p in parts.iter().chain(std::iter::once(&(i as u64))) {
            h ^= *p;
            h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
            h ^= h >> 29;
            h = h.wrapping_mul(0x94D0_49BB_1331_11EB);
            h ^= h >> 32;
        }
        chunk.copy_from_slice(&h.to_le_bytes());
    }
    out
}
pub fn hash_str(s: &str) -> u64 {
    // FNV-1a: stable over toolchains
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}

struct HashWriter(std::collections::hash_map::DefaultHasher);
impl std::fmt::Write for HashWriter {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        s.hash(&mut self.0);
        Ok(())
    }
}

#[derive(Default)]
struct Shared {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
}

fn truncate(mut s: String, n: usize) -> String {
    if s.len() > n {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push_str("...");
    }
    s
}

/// Defines a facet. `quick` and `thorough` are numbers of cases.
pub fn facet<S, V>(
    name: &'static str,
    rule: &'static str,
    clock: Clock,
    quick: u32,
    thorough: u32,
    strategy: impl Fn() -> S + Send + Sync + 'static,
    check: fn(&V, &mut Obs) -> Res,
) -> Facet
where
    S: Strategy<Value = V> + 'static,
    V: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
{
    let strategy = Arc::new(strategy);
    let run = move |cfg: &RunCfg| -> FacetReport {
        let start = vclock::real_ns();
        let total = ((if cfg.thorough { thorough } else { quick }) as f64 * cfg.scale).ceil() as u32;
        let shards: u32 = if clock == Clock::Local { 8 } else { 1 };
        let shared = Arc::new(Mutex::new(Shared::default()));
        let stop = Arc::new(AtomicBool::new(false));
        let mut outcomes: Vec<Option<(Result<String, String>, V)>> = Vec::new();
        let run_shard = |shard: u32, shared: Arc<Mutex<Shared>>, stop: Arc<AtomicBool>| -> Result<Option<(String, V)>, String> {
            let cases = total / shards + u32::from(shard < total % shards);
            if cases == 0 {
                return Ok(None);
            }
            let seed = mix(&[cfg.seed, hash_str(&cfg.prop), hash_str(name), shard as u64]);
            let config = Config {
                cases,
                failure_persistence: None,
                max_shrink_iters: match clock {
                    Clock::Local => 4096,
                    Clock::Global => 400,
                    Clock::Real => 12,
                },
                max_shrink_time: 60_000,
                verbose: 0,
                ..Config::default()
            };
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
            let mut runner = TestRunner::new_with_rng(config, rng);
            let failing = std::cell::Cell::new(false);
            let result = runner.run(&strategy(), |v| {
                if stop.load(SeqCst) && !failing.get() {
                    return Ok(());
                }
                let mut obs = Obs::default();
                let copy = v.clone();
                begin_case(shard, name, Box::new(move || serde_json::to_string(&copy).unwrap_or_default()));
                let r = run_case(clock, check, &v, &mut obs);
                end_case(shard);
                if !failing.get() {
                    let mut g = shared.lock().unwrap();
                    g.evaluations += 1;
                    for l in obs.labels {
                        *g.labels.entry(l).or_insert(0) += 1;
                    }
                    if obs.nontrivial {
                        let mut h = HashWriter(Default::default());
                        let _ = std::fmt::Write::write_fmt(&mut h, format_args!("{:?}", v));
                        let fresh = g.distinct.insert(h.0.finish());
                        if fresh && shard == 0 && g.samples.len() < 3 {
                            let text = serde_json::to_string(&v).unwrap_or_default();
                            g.samples.push(serde_json::Value::String(truncate(text, 900)));
                        }
                    }
                }
                match r {
                    Ok(()) => Ok(()),
                    Err(m) => {
                        failing.set(true);
                        stop.store(true, SeqCst);
                        Err(TestCaseError::fail(m))
                    }
                }
            });
            match result {
                Ok(()) => Ok(None),
                Err(TestError::Fail(reason, v)) => Ok(Some((reason.to_string(), v))),
                Err(TestError::Abort(reason)) => Err(format!("generator gave up: {}", reason)),
            }
        };
        let mut error = None;
        if shards == 1 {
            match run_shard(0, shared.clone(), stop.clone()) {
                Ok(None) => {}
                Ok(Some((m, v))) => outcomes.push(Some((Ok(m), v))),
                Err(e) => error = Some(e),
            }
        } else {
            let results: Vec<_> = std::thread::scope(|s| {
                let handles: Vec<_> = (0..shards)
                    .map(|i| {
                        let (shared, stop) = (shared.clone(), stop.clone());
                        let run_shard = &run_shard;
                        std::thread::Builder::new()
                            .name(format!("mxshard{}", i))
                            .stack_size(64 << 20)
                            .spawn_scoped(s, move || {
                                vclock::mark_harness_thread();
                                run_shard(i, shared, stop)
                            })
                            .unwrap()
                    })
                    .collect();
                handles.into_iter().map(|h| h.join()).collect()
            });
            for r in results {
                match r {
                    Ok(Ok(None)) => {}
                    Ok(Ok(Some((m, v)))) => outcomes.push(Some((Ok(m), v))),
                    Ok(Err(e)) => error = Some(e),
                    Err(_) => error = Some("a harness thread panicked".into()),
                }
            }
        }
        let violation = outcomes.into_iter().flatten().map(|(m, v)| (m.unwrap_or_else(|e| e), v)).next();
        let g = shared.lock().unwrap();
        let mut report = FacetReport {
            name: name.to_string(),
            rule: rule.to_string(),
            evaluations: g.evaluations,
            distinct_nontrivial: g.distinct.len() as u64,
            labels: g.labels.clone(),
            samples: g.samples.clone(),
            violation: None,
            error,
            wall_s: (vclock::real_ns() - start) as f64 / 1e9,
        };
        if let Some((message, v)) = violation {
            if message.contains(INCONCLUSIVE) {
                report.error = Some(message);
            } else {
                report.violation = Some(Violation {
                    facet: name.to_string(),
                    message,
                    case_json: serde_json::to_string_pretty(&v).unwrap_or_default(),
                    case_debug: format!("{:#?}", v),
                });
            }
        }
        report
    };
    let replay = move |case: &str| -> Result<Res, String> {
        let v: V = serde_json::from_str(case).map_err(|e| e.to_string())?;
        let mut obs = Obs::default();
        let copy = v.clone();
        begin_case(0, name, Box::new(move || serde_json::to_string(&copy).unwrap_or_default()));
        let r = run_case(clock, check, &v, &mut obs);
        end_case(0);
        Ok(r)
    };
    Facet { name, rule, run: Box::new(run), replay: Box::new(replay) }
}
