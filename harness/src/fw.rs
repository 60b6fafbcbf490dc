//! Law runner: proptest strategies driven with seeded RNGs, sharded over threads, shrinking,
//! replay files, known findings, evidence.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What a law reports about a case that satisfied it.
#[derive(Default, Debug, Clone)]
pub struct Obs {
    pub labels: Vec<String>,
    pub nontrivial: bool,
}
impl Obs {
    pub fn nt(nontrivial: bool) -> Self {
        Obs { labels: vec![], nontrivial }
    }
    pub fn label(mut self, l: impl Into<String>) -> Self {
        self.labels.push(l.into());
        self
    }
    pub fn label_if(self, c: bool, l: &str) -> Self {
        if c { self.label(l) } else { self }
    }
}

/// A broken law. `sig` identifies the failure independently of the random input.
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<Obs, Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr) => {
        if !($c) { return $crate::fw::fail($sig, stringify!($c)); }
    };
    ($c:expr, $sig:expr, $($arg:tt)+) => {
        if !($c) { return $crate::fw::fail($sig, format!($($arg)+)); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return $crate::fw::fail($sig, format!("{:?} != {:?}", a, b)); }
    }};
}

pub struct ShardReport {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(Value, Fail)>,
}

/// The case a worker is evaluating, for the watchdog.
pub struct Running {
    pub since: Instant,
    pub cpu0: f64,
    pub tid: String,
    pub law: &'static str,
    pub value: String,
}

/// CPU seconds used by one of our own threads
fn thread_cpu(tid: &str) -> f64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else { return 0.0 };
    let Some(r) = s.rsplit(')').next() else { return 0.0 };
    let f: Vec<&str> = r.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}
/// CPU budget of a single case; cases take milliseconds to a few seconds
const CASE_CPU_S: f64 = 60.0;

pub struct Ctx<'a> {
    pub seed: u64,
    pub known: &'a HashSet<String>,
    pub current: &'a Mutex<Option<Running>>,
    pub trace: Option<&'a std::path::Path>,
}

pub struct Law {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub rule: &'static str,
    #[allow(clippy::type_complexity)]
    pub run: Box<dyn Fn(&Ctx, u32, u32) -> ShardReport + Send + Sync>,
    #[allow(clippy::type_complexity)]
    pub replay: Box<dyn Fn(&Value) -> Result<Res, String> + Send + Sync>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        if quiet {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} @ {loc}")));
        } else {
            def(info)
        }
    }));
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = prev);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// Runs `f`; a panic is a failure of the law with a signature that names the operation.
pub fn nopanic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    catch(f).map_err(|m| Fail { sig: format!("{what}:panic"), msg: m })
}

fn eval<V>(law: &str, f: &(dyn Fn(&V) -> Res), v: &V) -> Res {
    match catch(|| f(v)) {
        Ok(r) => r,
        Err(m) => Err(Fail { sig: format!("{law}:panic"), msg: format!("panic: {m}") }),
    }
}

fn h64<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn clip(v: Value) -> Value {
    // keep evidence samples readable
    match v {
        Value::String(s) if s.len() > 160 => Value::String(format!("{}..({} chars)", &s[..120], s.len())),
        Value::Array(a) if a.len() > 40 => {
            let n = a.len();
            let mut o: Vec<Value> = a.into_iter().take(24).map(clip).collect();
            o.push(json!(format!("..({n} items)")));
            Value::Array(o)
        }
        Value::Array(a) => Value::Array(a.into_iter().map(clip).collect()),
        Value::Object(o) => Value::Object(o.into_iter().map(|(k, v)| (k, clip(v))).collect()),
        v => v,
    }
}

pub fn law<V, S>(
    name: &'static str,
    quick: u32,
    thorough: u32,
    rule: &'static str,
    strat: impl Fn() -> S + Send + Sync + 'static,
    f: impl Fn(&V) -> Res + Send + Sync + 'static,
) -> Law
where
    V: Serialize + DeserializeOwned + Debug + Clone + 'static,
    S: Strategy<Value = V> + 'static,
{
    let f = Arc::new(f);
    let f2 = f.clone();
    Law {
        name,
        quick,
        thorough,
        rule,
        run: Box::new(move |ctx, shard, cases| {
            let mut key = [0u8; 32];
            let mut hs = blake3::Hasher::new();
            hs.update(&ctx.seed.to_le_bytes());
            hs.update(name.as_bytes());
            hs.update(&shard.to_le_bytes());
            key.copy_from_slice(hs.finalize().as_bytes());
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &key);
            let cfg = Config {
                cases,
                failure_persistence: None,
                max_shrink_iters: 1500,
                max_shrink_time: 20_000,
                max_global_rejects: 100_000,
                ..Config::default()
            };
            let mut runner = TestRunner::new_with_rng(cfg, rng);
            let rep = RefCell::new(ShardReport {
                evaluations: 0,
                nontrivial: HashSet::new(),
                labels: BTreeMap::new(),
                known: BTreeMap::new(),
                samples: vec![],
                failure: None,
            });
            let failed = RefCell::new(false);
            let last: RefCell<Option<Fail>> = RefCell::new(None);
            let st: BoxedStrategy<V> = strat().boxed();
            let tid = std::fs::read_link("/proc/thread-self")
                .ok()
                .and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
                .unwrap_or_default();
            let r = runner.run(&st, |v| {
                {
                    let value = serde_json::to_string(&v).unwrap();
                    if let Some(d) = ctx.trace {
                        let f = d.join(format!("{name}-{shard}.json"));
                        std::fs::write(f, format!("{{\"law\":\"{name}\",\"value\":{value}}}")).ok();
                    }
                    if let Ok(mut c) = ctx.current.lock() {
                        *c = Some(Running { since: Instant::now(), cpu0: f64::NAN, tid: tid.clone(), law: name, value });
                    }
                }
                let out = eval(name, &*f, &v);
                let mut rep = rep.borrow_mut();
                let shrinking = *failed.borrow();
                match out {
                    Ok(o) => {
                        if !shrinking {
                            rep.evaluations += 1;
                            for l in o.labels {
                                *rep.labels.entry(l).or_insert(0) += 1;
                            }
                            if o.nontrivial {
                                let s = serde_json::to_string(&v).unwrap();
                                rep.nontrivial.insert(h64(&(name, &s)));
                                if rep.samples.len() < 1 && shard < 2 {
                                    rep.samples.push(json!({"law": name, "case": clip(serde_json::to_value(&v).unwrap())}));
                                }
                            }
                        }
                        Ok(())
                    }
                    Err(e) => {
                        if ctx.known.contains(&e.sig) {
                            if !shrinking {
                                rep.evaluations += 1;
                                *rep.known.entry(e.sig).or_insert(0) += 1;
                            }
                            return Ok(());
                        }
                        if !shrinking {
                            rep.evaluations += 1;
                        }
                        *failed.borrow_mut() = true;
                        let m = format!("{}: {}", e.sig, e.msg);
                        *last.borrow_mut() = Some(e);
                        Err(TestCaseError::fail(m))
                    }
                }
            });
            if let Ok(mut c) = ctx.current.lock() {
                *c = None;
            }
            let mut rep = rep.into_inner();
            match r {
                Ok(()) => {}
                Err(TestError::Fail(_, v)) => {
                    // re-evaluate the minimal value for its exact message
                    let e = match eval(name, &*f, &v) {
                        Err(e) => e,
                        Ok(_) => last.into_inner().unwrap_or(Fail { sig: format!("{name}:unstable"), msg: "".into() }),
                    };
                    rep.failure = Some((serde_json::to_value(&v).unwrap(), e));
                }
                Err(TestError::Abort(r)) => {
                    eprintln!("law {name}: generator aborted: {r}");
                    std::process::exit(4);
                }
            }
            rep
        }),
        replay: Box::new(move |val| {
            let v: V = serde_json::from_value(val.clone()).map_err(|e| format!("replay value: {e}"))?;
            Ok(eval(name, &*f2, &v))
        }),
    }
}

pub struct Prop {
    pub id: &'static str,
    pub laws: Vec<Law>,
    pub assumptions: Vec<&'static str>,
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("KV_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

/// known-findings.json: [{"property","signature","what"}]
fn load_known(id: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known-findings.json");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known-findings.json");
    v["findings"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .filter(|e| e["property"] == id)
        .map(|e| (e["signature"].as_str().unwrap().to_string(), e["what"].as_str().unwrap().to_string()))
        .collect()
}

pub fn run_prop(p: Prop, tier: &str, seed: u64, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let known_list = load_known(p.id);
    let known: HashSet<String> = known_list.iter().map(|(s, _)| s.clone()).collect();
    let mult: f64 = std::env::var("KV_MULT").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let laws: Vec<Law> = p.laws.into_iter().filter(|l| only.is_none_or(|o| l.name.contains(o))).collect();
    // regression inputs first (shrunk failures of repaired defects and of planted bugs)
    let mut regress = 0u64;
    let mut failures: Vec<(usize, u32, Value, Fail)> = vec![];
    let dir = verif_dir().join("regress").join(p.id);
    let mut files: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let Ok(s) = std::fs::read_to_string(&f) else { continue };
        let Ok(v) = serde_json::from_str::<Value>(&s) else { continue };
        let Some(li) = laws.iter().position(|l| v["law"] == l.name) else { continue };
        match (laws[li].replay)(&v["value"]) {
            Err(_) => {} // stale format: ignore
            Ok(Ok(_)) => regress += 1,
            Ok(Err(e)) => {
                regress += 1;
                if !known.contains(&e.sig) {
                    failures.push((li, 0, v["value"].clone(), e));
                }
            }
        }
    }
    // shards
    let mut jobs: Vec<(usize, u32, u32)> = vec![];
    for (li, l) in laws.iter().enumerate() {
        let cases = (((if tier == "thorough" { l.thorough } else { l.quick }) as f64) * mult).ceil().max(1.0) as u32;
        let shards = cases.min(if cases > 4000 { 32 } else { 16 });
        for s in 0..shards {
            let n = cases / shards + u32::from(s < cases % shards);
            jobs.push((li, s, n));
        }
    }
    // interleave laws so that cheap failures show early; deterministic order
    jobs.sort_by_key(|j| (j.1, j.0));
    let next = AtomicUsize::new(0);
    let stop: Vec<AtomicBool> = laws.iter().map(|_| AtomicBool::new(false)).collect();
    let reports: Mutex<Vec<(usize, u32, ShardReport, f64)>> = Mutex::new(vec![]);
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8);
    let currents: Vec<Mutex<Option<Running>>> = (0..nthreads).map(|_| Mutex::new(None)).collect();
    let done = AtomicBool::new(false);
    let trace = std::env::var("KV_TRACE").ok().map(std::path::PathBuf::from);
    let pid = p.id;
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..nthreads {
            let (laws, jobs, next, stop, reports, known, cur, trace) = (&laws, &jobs, &next, &stop, &reports, &known, &currents[t], &trace);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= jobs.len() {
                            break;
                        }
                        let (li, s, n) = jobs[i];
                        if stop[li].load(Ordering::SeqCst) {
                            continue;
                        }
                        let ctx = Ctx { seed, known, current: cur, trace: trace.as_deref() };
                        let t = Instant::now();
                        let r = (laws[li].run)(&ctx, s, n);
                        if r.failure.is_some() {
                            stop[li].store(true, Ordering::SeqCst);
                        }
                        reports.lock().unwrap().push((li, s, r, t.elapsed().as_secs_f64()));
                    })
                    .unwrap(),
            );
        }
        let (done, currents) = (&done, &currents);
        sc.spawn(move || {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                for c in currents {
                    if let Ok(mut g) = c.lock() {
                        let Some(r) = g.as_mut() else { continue };
                        if r.since.elapsed() < Duration::from_secs(2) {
                            continue;
                        }
                        let cpu = thread_cpu(&r.tid);
                        if r.cpu0.is_nan() {
                            r.cpu0 = cpu;
                            continue;
                        }
                        if cpu - r.cpu0 > CASE_CPU_S {
                            let dir = verif_dir().join("replays");
                            std::fs::create_dir_all(&dir).ok();
                            let path = dir.join(format!("{}-{}-hang.json", pid, r.law));
                            let v: Value = serde_json::from_str(&r.value).unwrap();
                            let body = json!({"property": pid, "law": r.law, "seed": seed, "signature": format!("{}:hang", r.law),
                                "message": format!("no result after {CASE_CPU_S} s of CPU time"), "value": v});
                            std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).ok();
                            println!("law {} broken: [{}:hang] no result after {CASE_CPU_S} s of CPU time", r.law, r.law);
                            println!("  input: {}", trunc(&r.value, 800));
                            println!("VIOLATION property={} replay={}", pid, path.display());
                            std::process::exit(1);
                        }
                        if r.since.elapsed() > Duration::from_secs(600) {
                            println!("INCONCLUSIVE: one case of law {} ran for over 600 s", r.law);
                            std::process::exit(3);
                        }
                    }
                }
            }
        });
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, Ordering::SeqCst);
    });
    let mut reports = reports.into_inner().unwrap();
    reports.sort_by_key(|r| (r.0, r.1));
    // merge
    let mut evaluations = regress;
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_law = serde_json::Map::new();
    for (li, l) in laws.iter().enumerate() {
        let (mut ev, mut labels, mut secs) = (0u64, BTreeMap::<String, u64>::new(), 0.0);
        let mut nt: HashSet<u64> = HashSet::new();
        let mut firstfail = true;
        for (_, s, r, t) in reports.iter().filter(|r| r.0 == li) {
            ev += r.evaluations;
            secs += t;
            nt.extend(r.nontrivial.iter());
            for (k, v) in &r.labels {
                *labels.entry(k.clone()).or_insert(0) += v;
            }
            for (k, v) in &r.known {
                *knowns.entry(k.clone()).or_insert(0) += v;
            }
            if samples.len() < 24 {
                samples.extend(r.samples.iter().cloned());
            }
            if let Some((v, e)) = &r.failure {
                if firstfail {
                    failures.push((li, *s, v.clone(), e.clone()));
                    firstfail = false;
                }
            }
        }
        evaluations += ev;
        per_law.insert(
            l.name.into(),
            json!({"evaluations": ev, "distinct_nontrivial": nt.len(), "labels": labels, "cpu_s": (secs*100.0).round()/100.0, "what": l.rule}),
        );
        nontrivial.extend(nt);
    }
    let mut code = 0;
    for (s, w) in &known_list {
        println!("KNOWN-FINDING: property={} {} [{}] (hit {} times in this run)", p.id, w, s, knowns.get(s).copied().unwrap_or(0));
    }
    let rdir = verif_dir().join("replays");
    for (i, (li, shard, v, e)) in failures.iter().enumerate() {
        code = 1;
        std::fs::create_dir_all(&rdir).ok();
        let path = rdir.join(format!("{}-{}-{}.json", p.id, laws[*li].name, i));
        let body = json!({"property": p.id, "law": laws[*li].name, "seed": seed, "shard": shard, "signature": e.sig, "message": e.msg, "value": v});
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).ok();
        println!("law {} broken: [{}] {}", laws[*li].name, e.sig, trunc(&e.msg, 800));
        println!("  minimal input: {}", trunc(&v.to_string(), 800));
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    let wall = t0.elapsed().as_secs_f64();
    let rule = laws.iter().map(|l| format!("{}: {}", l.name, l.rule)).collect::<Vec<_>>().join(" | ");
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial.len(),
            "rule": format!("cases are drawn from the proptest strategy of each law; non-trivial per law: {rule}"),
            "samples": samples,
            "laws": per_law,
            "regression_replays": regress,
            "excluded_as_known_findings": knowns,
        },
        "assumptions": p.assumptions,
        "wall_s": (wall*100.0).round()/100.0,
        "violations": failures.len(),
    });
    if only.is_none() {
        let ed = verif_dir().join("evidence");
        std::fs::create_dir_all(&ed).ok();
        std::fs::write(ed.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    } else {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["laws"]).unwrap());
    }
    println!(
        "{} {}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s",
        p.id, tier, evaluations, nontrivial.len(), failures.len(), wall
    );
    code
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n { s.into() } else { format!("{}...", s.chars().take(n).collect::<String>()) }
}
