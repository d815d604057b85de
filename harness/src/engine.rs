//! Generic search engine: parallel proptest runners, statistics, shrinking, replay files,
//! regression corpus, known findings and evidence.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{
    Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRunner,
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A property failure. `sig` names the kind of failure and is stable under shrinking.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Fail {
        Fail { sig: sig.into(), msg: msg.into() }
    }
}

/// What a passing case covered.
#[derive(Default, Debug)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}
impl Obs {
    pub fn new() -> Obs {
        Obs::default()
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b;
    }
}
pub type R = Result<Obs, Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)+) => { return Err($crate::engine::Fail::new($sig, format!($($arg)+))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)+) => { if !($cond) { return Err($crate::engine::Fail::new($sig, format!($($arg)+))) } };
}
/// Infrastructure problem: not a verdict about the code.
#[macro_export]
macro_rules! infra {
    ($($arg:tt)+) => { panic!("INFRA: {}", format!($($arg)+)) };
}

pub trait Case: Clone + Debug + Serialize + DeserializeOwned + Send + 'static {}
impl<T: Clone + Debug + Serialize + DeserializeOwned + Send + 'static> Case for T {}

#[derive(Clone, Debug, Deserialize, Serialize)]
pub struct Known {
    pub property: String,
    pub id: String,
    pub sub: String,
    pub sig: String,
    pub what: String,
    pub case: serde_json::Value,
}

#[derive(Default)]
pub struct SubStats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub known_hits: u64,
    pub rule: String,
    pub replayed: u64,
}

pub struct Violation {
    pub sub: String,
    pub fail: Fail,
    pub case: serde_json::Value,
    pub case_debug: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub workers: usize,
    pub root: PathBuf,
    pub known: Vec<Known>,
    pub replay: Option<(String, serde_json::Value)>,
    pub only_sub: Option<String>,
    pub scale: f64,
    pub stats: Mutex<BTreeMap<String, SubStats>>,
    pub violations: Mutex<Vec<Violation>>,
    pub infra: Mutex<Vec<String>>,
    pub known_seen: Mutex<BTreeMap<String, String>>,
    pub assumptions: Mutex<Vec<String>>,
    pub start: Instant,
}

/// The cases in progress: (slot, started, description).
static RUNNING: Mutex<Vec<(u64, Instant, String)>> = Mutex::new(Vec::new());
fn watch_begin(id: u64, what: String) {
    // left for run.sh, should the process die of a signal
    let _ = std::fs::write(crate::db::scratch_root().join(format!("running-{id}.json")), &what);
    let mut r = RUNNING.lock().unwrap_or_else(|e| e.into_inner());
    r.retain(|x| x.0 != id);
    r.push((id, Instant::now(), what));
}
fn watch_end(id: u64) {
    RUNNING.lock().unwrap_or_else(|e| e.into_inner()).retain(|x| x.0 != id);
}
/// A case that does not return is a violation of every property: the operation hangs.
pub fn start_watchdog(prop: String, root: PathBuf, seed: u64) {
    let limit: u64 =
        std::env::var("BH_CASE_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(
            // a chain of migrations followed without end takes more memory the longer it goes on
            if prop == "C20" { 40 } else { 150 },
        );
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let r = RUNNING.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(x) = r.iter().find(|x| x.1.elapsed().as_secs() >= limit) {
            let v: serde_json::Value = serde_json::from_str(&x.2).unwrap_or_default();
            let dir = root.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let sub = v["sub"].as_str().unwrap_or("case");
            let path = dir.join(format!("{prop}-{sub}-hang-{:08x}.json", hash_of(&x.2) as u32));
            let body = serde_json::json!({
                "property": prop, "sub": v["sub"], "sig": "hang", "seed": seed, "case": v["case"],
                "message": format!("the case did not return within {limit} s"),
                "replay_cmd": format!("bash run.sh {prop} quick --replay {}", path.display()),
            });
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
            println!("--- {prop} / {sub}: hang\na case did not return within {limit} s: {}", x.2);
            println!("VIOLATION property={prop} replay={}", path.display());
            std::process::exit(1);
        }
    });
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var("BH_VERBOSE").is_ok() {
            eprintln!("[panic] {msg} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Run `f`, turning a panic into a failure (or an infrastructure error).
pub fn guarded<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            let mut m = LAST_PANIC.with(|p| p.borrow().clone());
            if m.is_empty() {
                m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
            }
            if m.contains("INFRA:") {
                Err(Fail::new("INFRA", m))
            } else {
                Err(Fail::new("panic", m))
            }
        }
    }
}

fn hash_of(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub fn mix(seed: u64, s: &str, k: u64) -> u64 {
    // FNV-1a over the parts: stable across builds.
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in s.bytes().chain(k.to_le_bytes()) {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

fn norm_sig(s: &str) -> String {
    s.to_string()
}

impl Ctx {
    fn known_sig(&self, sub: &str, sig: &str) -> bool {
        self.known
            .iter()
            .any(|k| k.property == self.prop && k.sub == sub && k.sig == sig)
    }

    fn sub_selected(&self, sub: &str) -> bool {
        match &self.only_sub {
            Some(s) => s == sub,
            None => true,
        }
    }

    /// Number of cases for a tier.
    pub fn cases(&self, quick: u32, thorough: u32) -> u32 {
        let n = if self.tier == Tier::Quick { quick } else { thorough };
        ((n as f64 * self.scale).ceil() as u32).max(1)
    }

    /// Explore `cases` generated cases of sub-check `sub`.
    /// `init` makes per-worker state (e.g. a database).
    pub fn explore<C: Case, W>(
        &self,
        sub: &str,
        rule: &str,
        cases: u32,
        mk: impl Fn() -> BoxedStrategy<C> + Sync,
        init: impl Fn(usize) -> W + Sync,
        test: impl Fn(&mut W, &C) -> R + Sync,
    ) {
        // replay mode
        if let Some((rsub, rcase)) = &self.replay {
            if rsub != sub {
                return;
            }
            let case: C = match serde_json::from_value(rcase.clone()) {
                Ok(c) => c,
                Err(e) => {
                    self.infra.lock().unwrap().push(format!("replay case does not parse: {e}"));
                    return;
                }
            };
            let res = guarded(|| {
                let mut w = init(0);
                test(&mut w, &case)
            });
            match res {
                Ok(o) => println!("replay {sub}: passes; labels {:?}", o.labels),
                Err(f) if f.sig == "INFRA" => self.infra.lock().unwrap().push(f.msg),
                Err(f) => self.violations.lock().unwrap().push(Violation {
                    sub: sub.into(),
                    fail: f,
                    case: rcase.clone(),
                    case_debug: format!("{case:?}"),
                }),
            }
            return;
        }
        if !self.sub_selected(sub) {
            return;
        }
        let t0 = Instant::now();
        self.replay_corpus::<C, W>(sub, &init, &test);
        let stop = AtomicBool::new(false);
        let workers = self.workers.min(cases.max(1) as usize).max(1);
        std::thread::scope(|sc| {
            for wk in 0..workers {
                let n = cases / workers as u32 + u32::from((wk as u32) < cases % workers as u32);
                let stop = &stop;
                let mk = &mk;
                let init = &init;
                let test = &test;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        self.worker(sub, rule, wk, n, mk, init, test, stop)
                    })
                    .unwrap();
            }
        });
        if std::env::var("BH_TIMES").is_ok() {
            eprintln!("[time] {} {sub}: {:.1}s for {cases}", self.prop, t0.elapsed().as_secs_f64());
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn worker<C: Case, W>(
        &self,
        sub: &str,
        rule: &str,
        wk: usize,
        n: u32,
        mk: &(impl Fn() -> BoxedStrategy<C> + Sync),
        init: &(impl Fn(usize) -> W + Sync),
        test: &(impl Fn(&mut W, &C) -> R + Sync),
        stop: &AtomicBool,
    ) {
        let w = match guarded(|| Ok(init(wk))) {
            Ok(w) => w,
            Err(f) => {
                self.infra.lock().unwrap().push(format!("worker init: {}", f.msg));
                stop.store(true, Ordering::SeqCst);
                return;
            }
        };
        let w = RefCell::new(Some(w));
        let cfg = Config {
            cases: n,
            failure_persistence: None,
            max_shrink_iters: 600,
            max_shrink_time: 40_000,
            max_global_rejects: 100_000,
            rng_seed: RngSeed::Fixed(mix(self.seed, sub, wk as u64)),
            rng_algorithm: RngAlgorithm::ChaCha,
            ..Config::default()
        };
        let mut runner = TestRunner::new(cfg);
        let mut st = SubStats { rule: rule.into(), ..Default::default() };
        let stc = RefCell::new(&mut st);
        let first_sig: RefCell<Option<String>> = RefCell::new(None);
        let infra: RefCell<Option<String>> = RefCell::new(None);
        let strategy = mk();
        let res = runner.run(&strategy, |case: C| {
            if stop.load(Ordering::Relaxed) && first_sig.borrow().is_none() {
                return Ok(());
            }
            if infra.borrow().is_some() {
                return Ok(());
            }
            watch_begin(
                wk as u64,
                format!(
                    "{{\"sub\":\"{sub}\",\"case\":{}}}",
                    serde_json::to_string(&case).unwrap_or_default()
                ),
            );
            let r = guarded(|| {
                let mut wb = w.borrow_mut();
                if wb.is_none() {
                    *wb = Some(init(wk));
                }
                test(wb.as_mut().unwrap(), &case)
            });
            watch_end(wk as u64);
            let shrinking = first_sig.borrow().is_some();
            match r {
                Ok(o) => {
                    if !shrinking {
                        let mut s = stc.borrow_mut();
                        s.evaluations += 1;
                        if o.nontrivial {
                            s.nontrivial += 1;
                            if let Ok(js) = serde_json::to_string(&case) {
                                let fresh = s.distinct.insert(hash_of(&js));
                                if fresh && s.samples.len() < 2 && js.len() < 6000 {
                                    s.samples.push(serde_json::from_str(&js).unwrap_or_default());
                                }
                            }
                        }
                        for l in o.labels {
                            *s.labels.entry(l).or_default() += 1;
                        }
                    }
                    Ok(())
                }
                Err(f) => {
                    if f.sig == "INFRA" {
                        *infra.borrow_mut() = Some(f.msg);
                        *w.borrow_mut() = None;
                        return Ok(());
                    }
                    if f.sig == "panic" {
                        *w.borrow_mut() = None;
                    }
                    let sig = norm_sig(&f.sig);
                    if self.known_sig(sub, &sig) {
                        let mut s = stc.borrow_mut();
                        s.evaluations += 1;
                        s.known_hits += 1;
                        return Ok(());
                    }
                    if let Some(fs) = &*first_sig.borrow() {
                        if *fs != sig {
                            return Ok(());
                        }
                    } else {
                        stop.store(true, Ordering::SeqCst);
                    }
                    *first_sig.borrow_mut() = Some(sig);
                    Err(TestCaseError::fail(f.msg))
                }
            }
        });
        drop(stc);
        if let Some(m) = infra.into_inner() {
            self.infra.lock().unwrap().push(m);
        }
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                let sig = first_sig.borrow().clone().unwrap_or_default();
                self.violations.lock().unwrap().push(Violation {
                    sub: sub.into(),
                    fail: Fail::new(sig, reason.message().to_string()),
                    case: serde_json::to_value(&case).unwrap_or_default(),
                    case_debug: format!("{case:?}"),
                });
            }
            Err(TestError::Abort(r)) => {
                self.infra.lock().unwrap().push(format!("{sub}: generator aborted: {r}"));
            }
        }
        self.merge(sub, st);
    }

    fn merge(&self, sub: &str, st: SubStats) {
        let mut all = self.stats.lock().unwrap();
        let e = all.entry(sub.to_string()).or_default();
        e.evaluations += st.evaluations;
        e.nontrivial += st.nontrivial;
        e.known_hits += st.known_hits;
        e.replayed += st.replayed;
        e.distinct.extend(st.distinct);
        for (k, v) in st.labels {
            *e.labels.entry(k).or_default() += v;
        }
        if e.samples.len() < 2 {
            e.samples.extend(st.samples.into_iter().take(1));
        }
        if e.rule.is_empty() {
            e.rule = st.rule;
        }
    }

    /// Replays committed regression cases, and the cases of known findings.
    fn replay_corpus<C: Case, W>(
        &self,
        sub: &str,
        init: &(impl Fn(usize) -> W + Sync),
        test: &(impl Fn(&mut W, &C) -> R + Sync),
    ) {
        let mut st = SubStats::default();
        let dir = self.root.join("regress").join(&self.prop);
        let mut files: Vec<PathBuf> = std::fs::read_dir(&dir)
            .map(|d| d.flatten().map(|e| e.path()).collect())
            .unwrap_or_default();
        files.sort();
        for f in files {
            let Ok(txt) = std::fs::read_to_string(&f) else { continue };
            let Ok(v) = serde_json::from_str::<serde_json::Value>(&txt) else {
                self.infra.lock().unwrap().push(format!("bad regression file {}", f.display()));
                continue;
            };
            if v["sub"] != sub {
                continue;
            }
            let case: C = match serde_json::from_value(v["case"].clone()) {
                Ok(c) => c,
                Err(e) => {
                    self.infra.lock().unwrap().push(format!("{}: {e}", f.display()));
                    continue;
                }
            };
            st.replayed += 1;
            let res = guarded(|| {
                let mut w = init(0);
                test(&mut w, &case)
            });
            match res {
                Ok(_) => {}
                Err(fl) if fl.sig == "INFRA" => self.infra.lock().unwrap().push(fl.msg),
                Err(fl) if self.known_sig(sub, &fl.sig) => {}
                Err(fl) => self.violations.lock().unwrap().push(Violation {
                    sub: sub.into(),
                    fail: fl,
                    case: v["case"].clone(),
                    case_debug: format!("{case:?}"),
                }),
            }
        }
        for k in self.known.iter().filter(|k| k.property == self.prop && k.sub == sub) {
            if k.case.is_null() {
                continue;
            }
            let case: C = match serde_json::from_value(k.case.clone()) {
                Ok(c) => c,
                Err(e) => {
                    self.infra.lock().unwrap().push(format!("known finding {}: {e}", k.id));
                    continue;
                }
            };
            let res = guarded(|| {
                let mut w = init(0);
                test(&mut w, &case)
            });
            match res {
                Ok(_) => eprintln!("note: known finding {} no longer fails", k.id),
                Err(fl) if fl.sig == "INFRA" => self.infra.lock().unwrap().push(fl.msg),
                Err(fl) if fl.sig == k.sig => {
                    self.known_seen.lock().unwrap().insert(k.id.clone(), k.what.clone());
                }
                Err(fl) => {
                    if !self.known_sig(sub, &fl.sig) {
                        self.violations.lock().unwrap().push(Violation {
                            sub: sub.into(),
                            fail: fl,
                            case: k.case.clone(),
                            case_debug: format!("{case:?}"),
                        })
                    }
                }
            }
        }
        self.merge(sub, st);
    }

    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }

    /// Write evidence, print verdict lines, return the exit code.
    pub fn finish(&self) -> i32 {
        let stats = self.stats.lock().unwrap();
        let violations = self.violations.lock().unwrap();
        let infra = self.infra.lock().unwrap();
        let mut evals = 0;
        let mut distinct = 0;
        let mut rules = Vec::new();
        let mut samples = Vec::new();
        let mut subs = serde_json::Map::new();
        for (name, s) in stats.iter() {
            evals += s.evaluations;
            distinct += s.distinct.len() as u64;
            rules.push(format!("[{name}] {}", s.rule));
            for x in &s.samples {
                samples.push(serde_json::json!({"sub": name, "case": x}));
            }
            subs.insert(
                name.clone(),
                serde_json::json!({
                    "evaluations": s.evaluations,
                    "nontrivial": s.nontrivial,
                    "distinct_nontrivial": s.distinct.len(),
                    "regression_cases_replayed": s.replayed,
                    "excluded_as_known_finding": s.known_hits,
                    "classes": s.labels,
                }),
            );
        }
        let ev = serde_json::json!({
            "property": self.prop,
            "tier": if self.tier == Tier::Quick {"quick"} else {"thorough"},
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": distinct,
                "rule": rules.join("; "),
                "samples": samples,
                "sub_checks": subs,
            },
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": violations.len(),
        });
        if self.replay.is_none() {
            let dir = self.root.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            if let Err(e) = std::fs::write(
                dir.join(format!("{}.json", self.prop)),
                serde_json::to_string_pretty(&ev).unwrap() + "\n",
            ) {
                eprintln!("cannot write evidence: {e}");
            }
        }
        for (id, what) in self.known_seen.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {id}: {what}", self.prop);
        }
        let mut seen = HashSet::new();
        for v in violations.iter() {
            if !seen.insert((v.sub.clone(), v.fail.sig.clone())) {
                continue;
            }
            let dir = self.root.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!(
                "{}-{}-{:08x}.json",
                self.prop,
                v.sub,
                hash_of(&format!("{}{}", v.fail.sig, v.case)) as u32
            ));
            let body = serde_json::json!({
                "property": self.prop, "sub": v.sub, "sig": v.fail.sig, "message": v.fail.msg,
                "seed": self.seed, "case": v.case,
                "replay_cmd": format!("bash run.sh {} quick --replay {}", self.prop, path.display()),
            });
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
            println!("--- {} / {}: {}", self.prop, v.sub, v.fail.sig);
            println!("{}", v.fail.msg);
            let d: String = v.case_debug.chars().take(4000).collect();
            println!("minimal case: {d}");
            println!("VIOLATION property={} replay={}", self.prop, path.display());
        }
        for m in infra.iter().take(5) {
            eprintln!("ERROR: {m}");
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {} violation(s), {:.1}s",
            self.prop,
            evals,
            distinct,
            violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        if !violations.is_empty() {
            1
        } else if !infra.is_empty() {
            2
        } else {
            0
        }
    }
}

/// Runs `f`; `None` when it panicked.
pub fn quiet_panic<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
