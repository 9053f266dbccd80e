//! Check runner: sharded property-based generation, exhaustive enumeration, shrinking, replay, evidence.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicPtr, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

/// Per-thread counters of one run.
#[derive(Default)]
pub struct Ctx {
    pub evals: u64,
    pub nontrivial_hashes: HashSet<u64>,
    pub capped: bool,
    pub classes: BTreeMap<String, u64>,
    pub known: BTreeMap<String, (u64, String)>,
    pub listed: Vec<String>,
    pub samples: Vec<String>,
    /// Set by the check when the case is non-trivial.
    pub nontrivial: bool,
    pub quiet: bool,
}
const HASH_CAP: usize = 3_000_000;
impl Ctx {
    pub fn class(&mut self, s: &str) {
        if self.quiet { return; }
        match self.classes.get_mut(s) { Some(n) => *n += 1, None => { self.classes.insert(s.to_string(), 1); } }
    }
    /// Reports behaviour matching a listed known finding: quiet when listed, an error otherwise.
    pub fn finding(&mut self, sig: &str, msg: String) -> Res {
        if self.listed.iter().any(|l| l == sig) {
            if !self.quiet { let e = self.known.entry(sig.to_string()).or_insert((0, msg)); e.0 += 1; }
            Ok(())
        } else { Err(msg) }
    }
    fn note(&mut self, h: u64, sample: impl FnOnce() -> String) {
        self.evals += 1;
        if self.nontrivial {
            if self.nontrivial_hashes.len() < HASH_CAP {
                if self.nontrivial_hashes.insert(h) && self.samples.len() < 2 { self.samples.push(sample()); }
            } else { self.capped = true; }
        }
    }
    fn merge(&mut self, o: Ctx) {
        self.evals += o.evals;
        self.capped |= o.capped;
        self.nontrivial_hashes.extend(o.nontrivial_hashes);
        for (k, v) in o.classes { *self.classes.entry(k).or_default() += v; }
        for (k, v) in o.known { let e = self.known.entry(k).or_insert((0, v.1)); e.0 += v.0; }
        self.samples.extend(o.samples);
    }
}

pub struct Violation { pub sub: String, pub msg: String, pub case: serde_json::Value }

pub struct Runner {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub replay: Option<(String, serde_json::Value)>,
    pub replay_hit: Cell<bool>,
    pub total: RefCell<Ctx>,
    pub subs: RefCell<Vec<serde_json::Value>>,
    pub violation: RefCell<Option<Violation>>,
    pub listed: Vec<String>,
    pub scale: f64,
    pub all_exhaustive: Cell<bool>,
    pub start: Instant,
}

thread_local! { pub static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("{m} at {loc}");
        if !m.contains("cannot unwind") {
            let k = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
            if k != usize::MAX { m.clone_into(&mut SLOTS[k].panic.lock().unwrap_or_else(|e| e.into_inner())); }
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = m);
    }));
}
/// Runs code under test, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()))
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = crate::mem::FastHasher::default();
    h.write(s.as_bytes());
    crate::mem::mix(h.finish())
}

// ---------------------------------------------------------------- crashes and endless cases

/// What a worker is executing, published so that a case that never returns or kills the process can be reported.
struct Current { sub: *const str, case: *const (), dump: fn(*const ()) -> serde_json::Value }
struct Slot { cur: AtomicPtr<Current>, count: AtomicU64, clock: AtomicI32, panic: Mutex<String> }
static SLOTS: [Slot; 64] = [const { Slot { cur: AtomicPtr::new(std::ptr::null_mut()), count: AtomicU64::new(0), clock: AtomicI32::new(0), panic: Mutex::new(String::new()) } }; 64];
static CRASHED: AtomicI32 = AtomicI32::new(-1);
static SIGNAL: AtomicI32 = AtomicI32::new(0);
thread_local! { static SLOT: Cell<usize> = const { Cell::new(usize::MAX) }; }
/// Processor time after which a single case (normally below a millisecond) is held not to return.
const CASE_CPU_S: i64 = 60;

#[repr(C)]
struct Timespec { s: i64, n: i64 }
#[repr(C)]
struct SigAction { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
    fn sigaction(s: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn pause() -> i32;
    fn _exit(c: i32) -> !;
}

fn take_slot(k: usize) {
    SLOT.with(|s| s.set(k));
    let mut c = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
    SLOTS[k].clock.store(c, Ordering::SeqCst);
}
fn free_slot() { SLOT.with(|s| { SLOTS[s.get()].cur.store(std::ptr::null_mut(), Ordering::SeqCst); s.set(usize::MAX) }); }
fn dump_as<T: Serialize>(p: *const ()) -> serde_json::Value { serde_json::to_value(unsafe { &*(p as *const T) }).unwrap_or_default() }

/// Runs a check with the case published.
fn supervised<T: Serialize, R>(sub: &str, case: &T, f: impl FnOnce() -> R) -> R {
    let k = SLOT.with(|s| s.get());
    if k == usize::MAX { return f(); }
    let mut c = Current { sub, case: case as *const T as *const (), dump: dump_as::<T> };
    SLOTS[k].count.fetch_add(1, Ordering::Relaxed);
    SLOTS[k].cur.store(&mut c, Ordering::Release);
    let r = f();
    SLOTS[k].cur.store(std::ptr::null_mut(), Ordering::Release);
    r
}

extern "C" fn on_signal(sig: i32) {
    let k = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
    if k == usize::MAX { unsafe { _exit(2) } }
    SIGNAL.store(sig, Ordering::SeqCst);
    let _ = CRASHED.compare_exchange(-1, k as i32, Ordering::SeqCst, Ordering::SeqCst);
    // the supervisor reports and ends the process
    loop { unsafe { pause() }; }
}

/// Starts the thread that reports crashed and endless cases.
pub fn supervise(prop: String, out: String, tier: Tier, seed: u64, replay: bool) {
    const SA_ONSTACK: i32 = 0x0800_0000;
    for s in [6, 11, 7, 4, 8] {
        let a = SigAction { handler: on_signal as extern "C" fn(i32) as usize, mask: [0; 16], flags: SA_ONSTACK, restorer: 0 };
        unsafe { sigaction(s, &a, std::ptr::null_mut()) };
    }
    std::thread::spawn(move || {
        let t0 = Instant::now();
        let report = |k: usize, why: String| {
            let p = SLOTS[k].cur.load(Ordering::Acquire);
            let (sub, case) = if p.is_null() { (String::new(), serde_json::Value::Null) } else { unsafe { ((*(*p).sub).to_string(), ((*p).dump)((*p).case)) } };
            let path = format!("{out}/evidence/replay-{prop}.json");
            if !replay {
                let n: u64 = SLOTS.iter().map(|s| s.count.load(Ordering::Relaxed)).sum();
                let _ = std::fs::create_dir_all(format!("{out}/evidence"));
                let _ = std::fs::write(&path, serde_json::json!({"property": prop, "sub": sub, "seed": seed, "message": why, "case": case}).to_string() + "\n");
                let ev = serde_json::json!({"property": prop, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": seed, "level": "exploration",
                    "coverage": {"evaluations": n, "distinct_nontrivial": 0, "rule": "run ended early by a crash", "samples": []}, "assumptions": [], "wall_s": t0.elapsed().as_secs_f64(), "violations": 1});
                let _ = std::fs::write(format!("{out}/evidence/{prop}.json"), ev.to_string() + "\n");
            }
            println!("{prop}/{sub}: {why}\ncase: {case}\nVIOLATION property={prop} replay={path}");
            use std::io::Write;
            let _ = std::io::stdout().flush();
            unsafe { _exit(1) }
        };
        let mut last = vec![(0u64, 0i64); SLOTS.len()];
        let mut tick = 0u32;
        loop {
            std::thread::sleep(Duration::from_millis(50));
            let c = CRASHED.load(Ordering::SeqCst);
            if c >= 0 { 
                let last = SLOTS[c as usize].panic.try_lock().map(|m| m.clone()).unwrap_or_default();
                report(c as usize, format!("the process was killed by signal {} (panics that cannot unwind and stack overflows end so); last panic of the thread: {last:?}", SIGNAL.load(Ordering::SeqCst)));
             }
            tick += 1;
            if tick % 20 != 0 { continue; }
            for (k, s) in SLOTS.iter().enumerate() {
                if s.cur.load(Ordering::Acquire).is_null() { continue; }
                let n = s.count.load(Ordering::Relaxed);
                let mut ts = Timespec { s: 0, n: 0 };
                if unsafe { clock_gettime(s.clock.load(Ordering::SeqCst), &mut ts) } != 0 { continue; }
                if n != last[k].0 { last[k] = (n, ts.s); continue; }
                if ts.s - last[k].1 > CASE_CPU_S { report(k, format!("did not return after {CASE_CPU_S} seconds of processor time")); }
            }
        }
    });
}

/// Random cases of the quick tier, as a multiple of the counts written in the properties: about 20 s each on eight cores.
/// HARNESS_ONLY=<part> runs one part alone (for development: not set by check.sh).
fn only(sub: &str) -> bool { std::env::var("HARNESS_ONLY").is_ok_and(|o| o != sub) }

fn quick_scale(prop: &str) -> f64 {
    let all = std::env::var("HARNESS_QUICK").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    all * match prop {
        "C14" => 1.0,
        "C13" | "C27" => 3.0,
        "C17" | "C25" | "C18" | "C12" | "C15" => 4.0,
        "C03" | "C04" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C16" => 5.0,
        "C19" => 1.0,
        _ => 10.0,
    }
}

impl Runner {
    fn seed_for(prop: &str, seed: u64, sub: &str, shard: u64) -> [u8; 32] {
        let mut b = [0u8; 32];
        let mut z = crate::mem::mix(seed ^ hash_str(&format!("{prop}/{sub}"))) ^ crate::mem::mix(shard.wrapping_mul(0x1234567) + 1);
        for c in b.chunks_mut(8) { z = crate::mem::mix(z); c.copy_from_slice(&z.to_le_bytes()); }
        b
    }
    fn skip(&self) -> bool { self.violation.borrow().is_some() }

    /// Random cases from a proptest strategy; the first failure (lowest shard) is shrunk.
    pub fn rand<T, S, C>(&self, sub: &str, quick: u64, strat: S, check: C)
    where T: Debug + Clone + Serialize + DeserializeOwned + Hash + Send + 'static, S: Fn() -> BoxedStrategy<T> + Sync, C: Fn(&T, &mut Ctx) -> Res + Sync {
        if let Some((s, v)) = &self.replay {
            if s == sub { self.run_replay(sub, v, &check); }
            return;
        }
        if self.skip() || only(sub) { return; }
        self.all_exhaustive.set(false);
        let t0 = Instant::now();
        let mult = if self.tier == Tier::Thorough { self.scale } else { quick_scale(&self.prop) };
        let cases = ((quick as f64 * mult) as u64).max(64);
        let (prop, seed) = (&self.prop, self.seed);
        const SHARDS: usize = 64;
        let shards = if cases > 2_000_000 { 512 } else { SHARDS };
        let per = cases.div_ceil(shards as u64);
        let next = AtomicUsize::new(0);
        let best: Mutex<Option<(usize, String, T)>> = Mutex::new(None);
        let limit = if self.tier == Tier::Thorough { Duration::from_secs(240) } else { Duration::from_secs(100) };
        let cut = AtomicBool::new(false);
        let merged: Mutex<Ctx> = Mutex::new(Ctx::default());
        let listed = &self.listed;
        std::thread::scope(|sc| {
            for k in 0..self.threads {
                let (next, best, cut, merged, strat, check) = (&next, &best, &cut, &merged, &strat, &check);
                sc.spawn(move || {
                    take_slot(k);
                    let ctx = RefCell::new(Ctx { listed: listed.clone(), ..Ctx::default() });
                    let st = strat();
                    loop {
                        let sh = next.fetch_add(1, Ordering::SeqCst);
                        if sh >= shards { break; }
                        if best.lock().unwrap().as_ref().is_some_and(|b| b.0 < sh) { break; }
                        if t0.elapsed() > limit { cut.store(true, Ordering::SeqCst); break; }
                        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &Runner::seed_for(prop, seed, sub, sh as u64));
                        let mut r = TestRunner::new_with_rng(Config { cases: per as u32, failure_persistence: None, max_shrink_iters: 3000, max_shrink_time: 20_000, ..Config::default() }, rng);
                        let failed = Cell::new(false);
                        let res = r.run(&st, |case| {
                            let mut c = ctx.borrow_mut();
                            c.quiet = failed.get();
                            c.nontrivial = false;
                            match supervised(sub, &case, || guard(|| check(&case, &mut c)).unwrap_or_else(|p| Err(format!("panic: {p}")))) {
                                Ok(()) => {
                                    if !c.quiet {
                                        let mut h = crate::mem::FastHasher::default();
                                        case.hash(&mut h);
                                        let h = crate::mem::mix(h.finish());
                                        c.note(h, || format!("{sub}: {case:?}"));
                                    }
                                    Ok(())
                                }
                                Err(m) => { failed.set(true); Err(TestCaseError::fail(m)) }
                            }
                        });
                        match res {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, value)) => {
                                let mut b = best.lock().unwrap();
                                if b.as_ref().is_none_or(|b| sh < b.0) { *b = Some((sh, reason.to_string(), value)); }
                            }
                            Err(TestError::Abort(r)) => panic!("generator aborted: {r}"),
                        }
                    }
                    merged.lock().unwrap().merge(ctx.into_inner());
                    free_slot();
                });
            }
        });
        let m = merged.into_inner().unwrap();
        self.finish(sub, m, t0, cut.load(Ordering::SeqCst), false);
        if let Some((_, msg, v)) = best.into_inner().unwrap() {
            *self.violation.borrow_mut() = Some(Violation { sub: sub.into(), msg, case: serde_json::to_value(&v).unwrap() });
        }
    }

    /// Every index in 0..n, in parallel; the lowest failing index is reported.
    pub fn exhaust<C>(&self, sub: &str, n: u64, check: C)
    where C: Fn(u64, &mut Ctx) -> Res + Sync {
        if let Some((s, v)) = &self.replay {
            if s == sub { self.run_replay(sub, v, &|i: &u64, c: &mut Ctx| check(*i, c)); }
            return;
        }
        if self.skip() || only(sub) { return; }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let best: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let chunk = (n / 256).clamp(1, 65536);
        let merged: Mutex<Ctx> = Mutex::new(Ctx::default());
        let listed = &self.listed;
        let salt = hash_str(sub);
        std::thread::scope(|sc| {
            for k in 0..self.threads {
                let (next, best, merged, check) = (&next, &best, &merged, &check);
                sc.spawn(move || {
                    take_slot(k);
                    let mut c = Ctx { listed: listed.clone(), ..Ctx::default() };
                    'o: loop {
                        let k = next.fetch_add(1, Ordering::SeqCst) as u64;
                        if k * chunk >= n { break; }
                        if best.lock().unwrap().as_ref().is_some_and(|b| b.0 < k * chunk) { break; }
                        for i in k * chunk..((k + 1) * chunk).min(n) {
                            c.nontrivial = false;
                            match supervised(sub, &i, || guard(|| check(i, &mut c)).unwrap_or_else(|p| Err(format!("panic: {p}")))) {
                                Ok(()) => c.note(crate::mem::mix(salt ^ i), || format!("{sub}: index {i}")),
                                Err(m) => {
                                    let mut b = best.lock().unwrap();
                                    if b.as_ref().is_none_or(|b| i < b.0) { *b = Some((i, m)); }
                                    continue 'o;
                                }
                            }
                        }
                    }
                    merged.lock().unwrap().merge(c);
                    free_slot();
                });
            }
        });
        let m = merged.into_inner().unwrap();
        self.finish(sub, m, t0, false, true);
        if let Some((i, msg)) = best.into_inner().unwrap() {
            *self.violation.borrow_mut() = Some(Violation { sub: sub.into(), msg, case: serde_json::json!(i) });
        }
    }

    fn finish(&self, sub: &str, m: Ctx, t0: Instant, cut: bool, ex: bool) {
        self.subs.borrow_mut().push(serde_json::json!({
            "name": sub, "evaluations": m.evals, "distinct_nontrivial": m.nontrivial_hashes.len(), "exhaustive": ex,
            "stopped_by_time_limit": cut, "wall_s": t0.elapsed().as_secs_f64()
        }));
        if std::env::var_os("HARNESS_VERBOSE").is_some() {
            eprintln!("  {sub}: {} cases, {} distinct non-trivial, {:.2}s{}", m.evals, m.nontrivial_hashes.len(), t0.elapsed().as_secs_f64(), if cut { " (time limit)" } else { "" });
        }
        self.total.borrow_mut().merge(m);
    }

    fn run_replay<T: Debug + Serialize + DeserializeOwned>(&self, sub: &str, v: &serde_json::Value, check: &dyn Fn(&T, &mut Ctx) -> Res) {
        self.replay_hit.set(true);
        let case: T = serde_json::from_value(v.clone()).expect("replay case");
        let mut c = Ctx { listed: self.listed.clone(), ..Ctx::default() };
        println!("replaying {}/{sub}: {case:?}", self.prop);
        take_slot(0);
        match supervised(sub, &case, || guard(|| check(&case, &mut c)).unwrap_or_else(|p| Err(format!("panic: {p}")))) {
            Ok(()) => println!("case passes"),
            Err(m) => *self.violation.borrow_mut() = Some(Violation { sub: sub.into(), msg: m, case: v.clone() }),
        }
        self.total.borrow_mut().merge(c);
    }

    pub fn evidence(&self, rule: &str, assumptions: &[&str]) -> serde_json::Value {
        let t = self.total.borrow();
        let mut samples: Vec<String> = vec![];
        // a few samples, spread over the sub-checks
        for s in self.subs.borrow().iter() {
            let p = format!("{}: ", s["name"].as_str().unwrap());
            samples.extend(t.samples.iter().filter(|x| x.starts_with(&p)).take(2).map(|s| s.chars().take(900).collect::<String>()));
        }
        serde_json::json!({
            "property": self.prop,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": t.evals,
                "distinct_nontrivial": t.nontrivial_hashes.len(),
                "distinct_count_capped": t.capped,
                "rule": rule,
                "samples": samples,
                "classes": t.classes,
                "sub_checks": *self.subs.borrow(),
                "known_findings_hit": t.known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
                "exhaustive": self.all_exhaustive.get(),
            },
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violation.borrow().is_some() as u32,
        })
    }
}

pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> { s.boxed() }
