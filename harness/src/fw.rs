//! Small property-testing framework on top of proptest: deterministic seeds, sharding over
//! threads, replay files, evidence, known findings, hang detection.

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Byte string with a readable serialised form (hex).
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct B(pub Vec<u8>);

impl Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", hex(&self.0))
    }
}
impl std::ops::Deref for B {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for B {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl Serialize for B {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        unhex(&s).map(B).ok_or_else(|| serde::de::Error::custom("bad hex"))
    }
}

pub fn hex(b: &[u8]) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(H[(x >> 4) as usize] as char);
        s.push(H[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok())
        .collect()
}

/// A violated oracle.
#[derive(Clone, Debug)]
pub struct Fail(pub String);
pub type R = Result<(), Fail>;

impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail(s.to_string())
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)*) => {
        if !($c) {
            return Err($crate::fw::Fail(format!($($fmt)*)));
        }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($fmt:tt)*) => {{
        let a = &$a;
        let b = &$b;
        if a != b {
            return Err($crate::fw::Fail(format!(
                "{}: left={:?} right={:?}", format!($($fmt)*), a, b)));
        }
    }};
}

/// Observations made while a case runs.
#[derive(Default)]
pub struct Obs {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub findings: Vec<(String, String)>,
    pub known: Arc<HashSet<String>>,
    /// extra oracle evaluations inside one case (e.g. every bit flip)
    pub inner: u64,
}
impl Obs {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn label_if(&mut self, c: bool, s: &str) {
        if c {
            self.labels.push(s.to_string());
        }
    }
    /// A violation identified by a signature: tolerated iff the known-findings file lists it.
    pub fn finding(&mut self, signature: &str, what: String) -> R {
        if self.known.contains(signature) {
            self.findings.push((signature.to_string(), what));
            Ok(())
        } else {
            Err(Fail(what))
        }
    }
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub deadline: Instant,
    pub known: Arc<HashSet<String>>,
    pub scale: f64,
}

#[derive(Default)]
pub struct SubReport {
    pub name: String,
    pub rule: String,
    pub planned: u64,
    pub cases: u64,
    pub inner: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub findings: BTreeMap<String, (u64, String)>,
    pub failure: Option<Failure>,
    pub exhaustive: bool,
    pub cut_short: bool,
    pub wall: f64,
}
#[derive(Clone, Debug)]
pub struct Failure {
    pub message: String,
    pub case: serde_json::Value,
}

impl SubReport {
    fn merge(&mut self, o: SubReport) {
        self.cases += o.cases;
        self.inner += o.inner;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
        for (k, (n, w)) in o.findings {
            let e = self.findings.entry(k).or_insert((0, w));
            e.0 += n;
        }
        if self.failure.is_none() {
            self.failure = o.failure;
        }
        self.cut_short |= o.cut_short;
    }
}

pub trait Sub: Send + Sync {
    fn name(&self) -> &str;
    fn run(&self, ctx: &Ctx) -> SubReport;
    fn replay(&self, ctx: &Ctx, case: &serde_json::Value) -> Result<R, String>;
    /// turn raw bytes into a case (coverage-guided fuzzing), run it, return the failure
    fn fuzz(&self, ctx: &Ctx, data: &[u8]) -> Option<Failure>;
}

// ---------------------------------------------------------------- panic capture

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
}
/// Run `f`, reporting a panic as `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

// ---------------------------------------------------------------- hang watchdog

struct Slot {
    tid: String,
    case: Mutex<Option<(String, String, u64)>>, // sub, case json, cpu ticks at start
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());
pub static HUNG: AtomicBool = AtomicBool::new(false);

fn thread_ticks(tid: &str) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 1..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}
fn my_slot() -> Arc<Slot> {
    let tid = std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
        .unwrap_or_default();
    let s = Arc::new(Slot { tid, case: Mutex::new(None) });
    SLOTS.lock().unwrap().push(s.clone());
    s
}
/// CPU seconds (of its own thread) a single case may take before it counts as a hang.
const HANG_CPU_SECS: u64 = 100;

/// Watch for cases that never finish; `on_hang(sub, case)` must not return.
pub fn start_watchdog(on_hang: impl Fn(&str, &str) + Send + 'static) {
    std::thread::spawn(move || {
        let mut seen: BTreeMap<String, (String, u64, u64)> = BTreeMap::new();
        let mut gen: u64 = 0;
        loop {
            std::thread::sleep(Duration::from_secs(5));
            gen += 1;
            let slots: Vec<_> = SLOTS.lock().unwrap().clone();
            for s in slots {
                let cur = s.case.lock().unwrap().clone();
                let Some((sub, case, n)) = cur else {
                    seen.remove(&s.tid);
                    continue;
                };
                let Some(now) = thread_ticks(&s.tid) else { continue };
                match seen.get(&s.tid) {
                    Some((k, n0, t0)) if *k == sub && *n0 == n => {
                        if now.saturating_sub(*t0) > HANG_CPU_SECS * 100 {
                            on_hang(&sub, &case);
                        }
                    }
                    _ => {
                        seen.insert(s.tid.clone(), (sub, n, now));
                    }
                }
            }
            let _ = gen;
        }
    });
}

// ---------------------------------------------------------------- running one case

pub trait Case: Debug + Clone + Serialize + DeserializeOwned + Send + 'static {}
impl<T: Debug + Clone + Serialize + DeserializeOwned + Send + 'static> Case for T {}

pub type TestFn<C> = fn(&C, &mut Obs) -> R;

fn run_case<C: Case>(test: TestFn<C>, case: &C, obs: &mut Obs) -> R {
    match catch_unwind(AssertUnwindSafe(|| test(case, obs))) {
        Ok(r) => r,
        Err(_) => Err(Fail(LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

static CASE_NO: AtomicU64 = AtomicU64::new(0);

struct Shard<'a, C> {
    sub: &'a str,
    test: TestFn<C>,
    ctx: &'a Ctx,
    rep: RefCell<SubReport>,
    slot: Arc<Slot>,
}
impl<'a, C: Case> Shard<'a, C> {
    fn new(sub: &'a str, test: TestFn<C>, ctx: &'a Ctx) -> Self {
        Shard { sub, test, ctx, rep: RefCell::new(SubReport::default()), slot: my_slot() }
    }
    fn one(&self, case: &C, count: bool) -> R {
        let js = serde_json::to_string(case).unwrap_or_default();
        let n = CASE_NO.fetch_add(1, Ordering::Relaxed);
        *self.slot.case.lock().unwrap() = Some((self.sub.to_string(), js.clone(), n));
        let mut obs = Obs { known: self.ctx.known.clone(), ..Obs::default() };
        let r = run_case(self.test, case, &mut obs);
        *self.slot.case.lock().unwrap() = None;
        if count {
            let mut rep = self.rep.borrow_mut();
            rep.cases += 1;
            rep.inner += obs.inner;
            if obs.nontrivial {
                rep.nontrivial += 1;
                let h = Sha256::digest(js.as_bytes());
                let mut k = [0u8; 8];
                k.copy_from_slice(&h[..8]);
                if rep.distinct.insert(u64::from_le_bytes(k)) && rep.samples.len() < 2 && js.len() < 6000
                {
                    rep.samples.push(serde_json::from_str(&js).unwrap_or(serde_json::Value::Null));
                }
            }
            for l in obs.labels {
                *rep.labels.entry(l).or_default() += 1;
            }
            for (k, w) in obs.findings {
                let e = rep.findings.entry(k).or_insert((0, w));
                e.0 += 1;
            }
        }
        r
    }
}

fn shard_seed(ctx: &Ctx, sub: &str, shard: u64) -> [u8; 32] {
    let mut h = Sha256::new();
    h.update(ctx.seed.to_le_bytes());
    h.update(ctx.prop.as_bytes());
    h.update([0]);
    h.update(sub.as_bytes());
    h.update([0]);
    h.update(shard.to_le_bytes());
    h.finalize().into()
}

fn config(cases: u32) -> Config {
    Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 4000,
        max_shrink_time: 20_000,
        max_global_rejects: 1_000_000,
        max_local_rejects: 1_000_000,
        ..Config::default()
    }
}

pub const SHARDS: u64 = 8;

fn parallel<F: Fn(u64) -> SubReport + Sync>(f: F) -> SubReport {
    let out = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for i in 0..SHARDS {
            let (out, f) = (&out, &f);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let r = f(i);
                    out.lock().unwrap().push((i, r));
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    let mut rep = SubReport::default();
    for (_, r) in v {
        rep.merge(r);
    }
    rep
}

// ---------------------------------------------------------------- generated sub-check

pub struct PropSub<C: Case, S: Strategy<Value = C>> {
    pub name: String,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strategy: fn() -> S,
    pub test: TestFn<C>,
}

/// A generated sub-check.  `rule` says what makes a case non-trivial.
pub fn gen<C: Case, S: Strategy<Value = C> + 'static>(
    name: &str,
    rule: &'static str,
    quick: u64,
    thorough: u64,
    strategy: fn() -> S,
    test: TestFn<C>,
) -> Box<dyn Sub> {
    Box::new(PropSub { name: name.to_string(), rule, quick, thorough, strategy, test })
}

impl<C: Case, S: Strategy<Value = C> + 'static> Sub for PropSub<C, S> {
    fn name(&self) -> &str {
        &self.name
    }
    fn run(&self, ctx: &Ctx) -> SubReport {
        let t0 = Instant::now();
        let total = match ctx.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let total = ((total as f64) * ctx.scale).ceil().max(1.0) as u64;
        let stop = AtomicBool::new(false);
        let mut rep = parallel(|i| {
            let n = total / SHARDS + u64::from(i < total % SHARDS);
            let sh = Shard::new(&self.name, self.test, ctx);
            if n == 0 {
                return sh.rep.into_inner();
            }
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &shard_seed(ctx, &self.name, i));
            let mut runner = TestRunner::new_with_rng(config(n as u32), rng);
            let strat = (self.strategy)();
            let failing = RefCell::new(false);
            let res = runner.run(&strat, |case| {
                if !*failing.borrow() && (stop.load(Ordering::Relaxed) || Instant::now() > ctx.deadline)
                {
                    sh.rep.borrow_mut().cut_short = true;
                    return Ok(());
                }
                let count = !*failing.borrow();
                match sh.one(&case, count) {
                    Ok(()) => Ok(()),
                    Err(f) => {
                        *failing.borrow_mut() = true;
                        Err(TestCaseError::fail(f.0))
                    }
                }
            });
            if let Err(e) = res {
                stop.store(true, Ordering::Relaxed);
                let fail = match e {
                    TestError::Fail(_, case) => {
                        // the message of the minimal case
                        let msg = match sh.one(&case, false) {
                            Err(f) => f.0,
                            Ok(()) => "minimal case passes when re-run (flaky)".to_string(),
                        };
                        Failure { message: msg, case: serde_json::to_value(&case).unwrap() }
                    }
                    TestError::Abort(r) => Failure {
                        message: format!("HARNESS: generator aborted: {r}"),
                        case: serde_json::Value::Null,
                    },
                };
                sh.rep.borrow_mut().failure = Some(fail);
            }
            sh.rep.into_inner()
        });
        rep.name = self.name.clone();
        rep.rule = self.rule.to_string();
        rep.planned = total;
        rep.wall = t0.elapsed().as_secs_f64();
        rep
    }
    fn replay(&self, ctx: &Ctx, case: &serde_json::Value) -> Result<R, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        let sh = Shard::new(&self.name, self.test, ctx);
        Ok(sh.one(&c, true))
    }
    fn fuzz(&self, ctx: &Ctx, data: &[u8]) -> Option<Failure> {
        let rng = TestRng::from_seed(RngAlgorithm::PassThrough, data);
        let mut runner = TestRunner::new_with_rng(config(1), rng);
        let strat = (self.strategy)();
        let tree = no_panic(|| strat.new_tree(&mut runner)).ok()?.ok()?;
        let case = proptest::strategy::ValueTree::current(&tree);
        let mut obs = Obs { known: ctx.known.clone(), ..Obs::default() };
        match run_case(self.test, &case, &mut obs) {
            Ok(()) => None,
            Err(f) => Some(Failure { message: f.0, case: serde_json::to_value(&case).unwrap() }),
        }
    }
}

// ---------------------------------------------------------------- enumerated sub-check

pub struct EnumSub<C: Case> {
    pub name: String,
    pub rule: &'static str,
    pub cases: fn(Tier) -> Vec<C>,
    pub test: TestFn<C>,
}

/// A finite enumeration, run completely, simplest cases first.
pub fn all<C: Case + Sync>(
    name: &str,
    rule: &'static str,
    cases: fn(Tier) -> Vec<C>,
    test: TestFn<C>,
) -> Box<dyn Sub> {
    Box::new(EnumSub { name: name.to_string(), rule, cases, test })
}

impl<C: Case + Sync> Sub for EnumSub<C> {
    fn name(&self) -> &str {
        &self.name
    }
    fn run(&self, ctx: &Ctx) -> SubReport {
        let t0 = Instant::now();
        let cases = (self.cases)(ctx.tier);
        let best: Mutex<Option<(usize, Failure)>> = Mutex::new(None);
        let min_fail = AtomicU64::new(u64::MAX);
        let next = AtomicU64::new(0);
        let mut rep = parallel(|_| {
            let sh = Shard::new(&self.name, self.test, ctx);
            loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k as usize >= cases.len() || k > min_fail.load(Ordering::Relaxed) {
                    break;
                }
                if Instant::now() > ctx.deadline {
                    sh.rep.borrow_mut().cut_short = true;
                    break;
                }
                let case = &cases[k as usize];
                if let Err(f) = sh.one(case, true) {
                    min_fail.fetch_min(k, Ordering::Relaxed);
                    let mut b = best.lock().unwrap();
                    if b.as_ref().map(|x| x.0 > k as usize).unwrap_or(true) {
                        *b = Some((
                            k as usize,
                            Failure { message: f.0, case: serde_json::to_value(case).unwrap() },
                        ));
                    }
                    break;
                }
            }
            sh.rep.into_inner()
        });
        rep.name = self.name.clone();
        rep.rule = self.rule.to_string();
        rep.planned = cases.len() as u64;
        rep.failure = best.into_inner().unwrap().map(|x| x.1);
        rep.exhaustive = !rep.cut_short && rep.failure.is_none();
        rep.wall = t0.elapsed().as_secs_f64();
        rep
    }
    fn replay(&self, ctx: &Ctx, case: &serde_json::Value) -> Result<R, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        let sh = Shard::new(&self.name, self.test, ctx);
        Ok(sh.one(&c, true))
    }
    fn fuzz(&self, _ctx: &Ctx, _data: &[u8]) -> Option<Failure> {
        None
    }
}
