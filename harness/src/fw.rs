//! Framework: seeded generation, parallel workers, shrinking, replay files, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use sha2::{Digest, Sha256};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub type PropId = &'static str;

/// An observed disagreement between the code and the oracle, with the properties it refutes.
#[derive(Debug, Clone)]
pub struct Divergence {
    pub props: Vec<PropId>,
    pub msg: String,
}

pub type Res<T = ()> = Result<T, Divergence>;

pub fn div<T>(props: &[PropId], msg: impl Into<String>) -> Res<T> {
    Err(Divergence { props: props.to_vec(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure_p {
    ($cond:expr, $props:expr, $($arg:tt)*) => {
        if !($cond) { return $crate::fw::div($props, format!($($arg)*)); }
    };
}
#[macro_export]
macro_rules! ensure_eq_p {
    ($a:expr, $b:expr, $props:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return $crate::fw::div($props, format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
        }
    }};
}

/// Coverage of a single case.
#[derive(Default, Debug, Clone)]
pub struct Cov {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
}
impl Cov {
    pub fn hit(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_default() += 1;
    }
    pub fn has(&self, l: &str) -> bool {
        self.labels.contains_key(l)
    }
    pub fn count(&self, l: &str) -> u64 {
        self.labels.get(l).copied().unwrap_or(0)
    }
}

pub trait Check: Send + Sync {
    type Case: Serialize + DeserializeOwned + Debug + Clone + 'static;
    /// generator
    fn strategy(&self) -> BoxedStrategy<Self::Case>;
    /// deciding function
    fn run(&self, case: &Self::Case, cov: &mut Cov) -> Res;
    /// number of cases in (quick, thorough)
    fn cases(&self) -> (u64, u64);
    /// the rule that makes a case non-trivial
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
}

#[derive(Default)]
struct Agg {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    nontrivial_total: u64,
    labels: BTreeMap<String, u64>,
    foreign: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    known: BTreeMap<String, u64>,
}

thread_local! { static QUIET: Cell<bool> = const { Cell::new(false) }; }

pub fn install_quiet_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !QUIET.with(|q| q.get()) {
            prev(info)
        }
    }));
}

/// Runs f, converting a panic (a contract abort) to Err(message).
/// where evidence, replays and the known-findings file live
fn base() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(before));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}

fn run_case<C: Check>(c: &C, prop: PropId, case: &C::Case, cov: &mut Cov) -> Res {
    match guarded(|| c.run(case, cov)) {
        Ok(r) => r,
        Err(p) => div(&[prop], format!("harness aborted: {p}")),
    }
}

#[derive(serde::Deserialize)]
struct Known {
    property: String,
    signature: String,
    what: String,
}

fn known_findings() -> Vec<Known> {
    let p = std::path::PathBuf::from(format!("{}/known_findings.jsonl", base()));
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    s.lines()
        .filter(|l| l.trim_start().starts_with('{'))
        .filter_map(|l| serde_json::from_str(l).ok())
        .collect()
}

pub struct RunArgs {
    pub prop: PropId,
    pub tier: String,
    pub seed: u64,
    pub replay: Option<String>,
    pub cases_override: Option<u64>,
}

fn h64(s: &[u8]) -> u64 {
    let d = Sha256::digest(s);
    u64::from_le_bytes(d[..8].try_into().unwrap())
}

/// returns the process exit code
pub fn run_check<C: Check + 'static>(check: C, args: RunArgs) -> i32 {
    let prop = args.prop;
    let known: Vec<Known> = known_findings().into_iter().filter(|k| k.property == prop).collect();
    let is_known = |d: &Divergence| known.iter().find(|k| d.msg.contains(&k.signature)).map(|k| k.what.clone());

    if let Some(path) = &args.replay {
        let txt = std::fs::read_to_string(path).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&txt).expect("replay json");
        let case: C::Case = serde_json::from_value(v["case"].clone()).expect("replay case");
        let mut cov = Cov::default();
        return match run_case(&check, prop, &case, &mut cov) {
            Ok(()) => {
                println!("replay: property={prop} held");
                0
            }
            Err(d) => {
                println!("replay: divergence {:?}: {}", d.props, d.msg);
                if d.props.contains(&prop) {
                    println!("VIOLATION property={prop} replay={path}");
                    1
                } else {
                    0
                }
            }
        };
    }

    let t0 = Instant::now();
    let (q, t) = check.cases();
    let total = args.cases_override.unwrap_or(if args.tier == "thorough" { t } else { q });
    let workers = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64);
    let stop = Arc::new(AtomicBool::new(false));
    let slow = Arc::new(AtomicU64::new(0));
    let agg = Arc::new(Mutex::new(Agg::default()));
    let failure: Arc<Mutex<Option<(String, Divergence, u64)>>> = Arc::new(Mutex::new(None));
    let check = Arc::new(check);

    // saved regression inputs first (committed, small)
    let mut saved = 0u64;
    if let Ok(rd) = std::fs::read_dir(format!("{}/corpus/{prop}", base())) {
        let files: BTreeSet<_> = rd.filter_map(|e| e.ok().map(|e| e.path())).collect();
        for f in files {
            let Ok(txt) = std::fs::read_to_string(&f) else { continue };
            let Ok(v) = serde_json::from_str::<serde_json::Value>(&txt) else { continue };
            let Ok(case) = serde_json::from_value::<C::Case>(v["case"].clone()) else { continue };
            saved += 1;
            let mut cov = Cov::default();
            if let Err(d) = run_case(&*check, prop, &case, &mut cov) {
                if d.props.contains(&prop) && is_known(&d).is_none() {
                    let js = serde_json::to_string(&case).unwrap();
                    *failure.lock().unwrap() = Some((js, d, 0));
                    stop.store(true, Ordering::SeqCst);
                    break;
                }
            }
        }
    }

    let known_sigs: Vec<(String, String)> = known.iter().map(|k| (k.signature.clone(), k.what.clone())).collect();
    let mut handles = vec![];
    for w in 0..workers {
        let n = total / workers + u64::from(w < total % workers);
        let (stop, agg, failure, check, slow) = (stop.clone(), agg.clone(), failure.clone(), check.clone(), slow.clone());
        let seed = args.seed;
        let known_sigs = known_sigs.clone();
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                let mut seed32 = [0u8; 32];
                seed32.copy_from_slice(&Sha256::digest(format!("{seed}/{prop}/{w}").as_bytes()));
                let mut runner = TestRunner::new_with_rng(
                    Config { failure_persistence: None, ..Config::default() },
                    TestRng::from_seed(RngAlgorithm::ChaCha, &seed32),
                );
                let strat = check.strategy();
                for i in 0..n {
                    if stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let mut tree = strat.new_tree(&mut runner).expect("generator");
                    let case = tree.current();
                    let mut cov = Cov::default();
                    let c0 = Instant::now();
                    let r = run_case(&*check, prop, &case, &mut cov);
                    slow.fetch_max(c0.elapsed().as_millis() as u64, Ordering::Relaxed);
                    {
                        let mut a = agg.lock().unwrap();
                        a.evaluations += 1;
                        for (k, v) in &cov.labels {
                            *a.labels.entry(k.clone()).or_default() += v.min(&1);
                        }
                        if cov.nontrivial {
                            a.nontrivial_total += 1;
                            let js = serde_json::to_string(&case).unwrap();
                            a.nontrivial.insert(h64(js.as_bytes()));
                            if w == 0 && a.samples.len() < 3 && (i % 7 == 3 || i > 20) {
                                let mut s = js;
                                if s.len() > 3000 {
                                    s.truncate(3000);
                                    s.push_str("...");
                                }
                                let v = serde_json::json!({"case": s, "labels": cov.labels.keys().collect::<Vec<_>>()});
                                a.samples.push(v);
                            }
                        }
                    }
                    if let Err(d) = r {
                        if !d.props.contains(&prop) {
                            let mut a = agg.lock().unwrap();
                            *a.foreign.entry(format!("{:?} {}", d.props, d.msg.chars().take(160).collect::<String>())).or_default() += 1;
                            continue;
                        }
                        if let Some((_, what)) = known_sigs.iter().find(|(s, _)| d.msg.contains(s)) {
                            *agg.lock().unwrap().known.entry(what.clone()).or_default() += 1;
                            continue;
                        }
                        // first failure wins; shrink it
                        if stop.swap(true, Ordering::SeqCst) {
                            break;
                        }
                        let mut best = (case, d);
                        let mut iters = 0u64;
                        let s0 = Instant::now();
                        if tree.simplify() {
                            loop {
                                iters += 1;
                                if iters > 3000 || s0.elapsed().as_secs() > 60 {
                                    break;
                                }
                                let cand = tree.current();
                                let mut c2 = Cov::default();
                                match run_case(&*check, prop, &cand, &mut c2) {
                                    Err(d) if d.props.contains(&prop)
                                        && !known_sigs.iter().any(|(s, _)| d.msg.contains(s)) =>
                                    {
                                        best = (cand, d);
                                        if !tree.simplify() {
                                            break;
                                        }
                                    }
                                    _ => {
                                        if !tree.complicate() {
                                            break;
                                        }
                                    }
                                }
                            }
                        }
                        let js = serde_json::to_string(&best.0).unwrap();
                        *failure.lock().unwrap() = Some((js, best.1, iters));
                        break;
                    }
                }
            })
            .unwrap();
        handles.push(h);
    }
    let mut worker_err = false;
    for h in handles {
        if h.join().is_err() {
            worker_err = true;
        }
    }
    let a = agg.lock().unwrap();
    let fail = failure.lock().unwrap().clone();
    let foreign_total: u64 = a.foreign.values().sum();
    let mut violations = vec![];
    let mut code = 0;
    if let Some((js, d, iters)) = &fail {
        let dir = format!("{}/replays", base());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{:016x}.json", h64(js.as_bytes()));
        let body = serde_json::json!({
            "property": prop, "message": d.msg, "refutes": d.props, "shrink_steps": iters,
            "case": serde_json::from_str::<serde_json::Value>(js).unwrap(),
            "reproduce": format!("/verif/run.sh {prop} --replay {path}"),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("write replay");
        println!("divergence: {}", d.msg);
        println!("VIOLATION property={prop} replay={path}");
        violations.push(serde_json::json!({"replay": path, "message": d.msg}));
        code = 1;
    } else if worker_err {
        println!("ERROR: a worker died");
        code = 2;
    } else if foreign_total * 2 > a.evaluations {
        println!("ERROR: more than half of the cases stopped on disagreements about other properties: {:?}", a.foreign.iter().take(3).collect::<Vec<_>>());
        code = 2;
    }
    for k in &known {
        println!("KNOWN-FINDING: property={prop} {}", k.what);
    }
    let ev = serde_json::json!({
        "property": prop, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": a.evaluations,
            "distinct_nontrivial": a.nontrivial.len(),
            "nontrivial_total": a.nontrivial_total,
            "rule": check.rule(),
            "samples": a.samples,
            "classes": a.labels,
            "stopped_on_other_properties": a.foreign,
            "known_finding_hits": a.known,
            "saved_inputs_replayed": saved,
            "planned_cases": total,
            "slowest_case_ms": slow.load(Ordering::Relaxed),
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "assumptions": check.assumptions(),
        "violations": violations.len(), "violation_details": violations,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", base()));
    std::fs::write(format!("{}/evidence/{prop}.json", base()), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!(
        "property={prop} tier={} cases={} nontrivial={} foreign={} wall={:.1}s",
        args.tier, a.evaluations, a.nontrivial.len(), foreign_total, t0.elapsed().as_secs_f64()
    );
    if std::env::var("VERIF_LABELS").is_ok() {
        for (k, v) in &a.labels {
            println!("  {v:8} {k}");
        }
        for (k, v) in &a.foreign {
            println!("  foreign {v:8} {k}");
        }
    }
    code
}

/// A divergence as a value, for `map_err`.
pub fn dv(props: &[PropId], msg: impl Into<String>) -> Divergence {
    Divergence { props: props.to_vec(), msg: msg.into() }
}

/// Two engines deciding the same property: each case comes from one of them, in proportion to their case counts.
pub struct Both<A, B>(pub A, pub B);

#[derive(Debug, Clone, Serialize, serde::Deserialize)]
#[serde(bound(serialize = "A: Serialize, B: Serialize", deserialize = "A: DeserializeOwned, B: DeserializeOwned"))]
pub enum Either<A, B> {
    First(A),
    Second(B),
}

impl<A: Check, B: Check> Check for Both<A, B> {
    type Case = Either<A::Case, B::Case>;
    fn strategy(&self) -> BoxedStrategy<Self::Case> {
        let (x, y) = (self.0.cases().0 as u32, self.1.cases().0 as u32);
        proptest::prop_oneof![
            x => self.0.strategy().prop_map(Either::First),
            y => self.1.strategy().prop_map(Either::Second),
        ]
        .boxed()
    }
    fn run(&self, case: &Self::Case, cov: &mut Cov) -> Res {
        match case {
            Either::First(c) => self.0.run(c, cov),
            Either::Second(c) => self.1.run(c, cov),
        }
    }
    fn cases(&self) -> (u64, u64) {
        let (a, b) = (self.0.cases(), self.1.cases());
        (a.0 + b.0, a.1 + b.1)
    }
    fn rule(&self) -> &'static str {
        Box::leak(format!("{}; or, in a whole DAO: {}", self.0.rule(), self.1.rule()).into_boxed_str())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        self.0.assumptions().into_iter().chain(self.1.assumptions()).collect()
    }
}
