//! The property runner: proptest generation and shrinking, fixed work split over deterministic
//! shards, case statistics, replay files and known findings. Shared by both harness crates.

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// What a passing case looked like.
pub struct Info {
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
}

pub fn ok(nontrivial: bool) -> Result<Info, Fail> {
    Ok(Info { nontrivial, tags: vec![] })
}
pub fn ok_tags(nontrivial: bool, tags: Vec<&'static str>) -> Result<Info, Fail> {
    Ok(Info { nontrivial, tags })
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// identifies a specific known finding; a failure with a signature that is listed in the
    /// known-findings file is counted and the search goes on
    pub sig: Option<String>,
}

impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { msg, sig: None }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !($c) {
            return Err($crate::pbt::Fail { msg: format!($($arg)*), sig: None });
        }
    };
}

pub type Check<C> = fn(&C) -> Result<Info, Fail>;

pub struct Family<C: 'static> {
    pub name: &'static str,
    /// what a case is and when it counts as non-trivial
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub check: Check<C>,
}

pub trait FamilyDyn: Send + Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn cases(&self, thorough: bool) -> u32;
    fn run_shard(&self, ctx: &Ctx, seed: u64, cases: u32, shard: usize, stats: &Mutex<Stats>) -> Option<Violation>;
    fn replay(&self, case: &Value) -> Result<Result<Info, Fail>, String>;
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub hashes: HashSet<u64>,
    pub tags: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
}

pub struct Violation {
    pub case: Value,
    pub msg: String,
    pub shard: usize,
}

/// The case a thread is running, for the watchdog that ends cases which never return.
struct Running {
    since: Instant,
    case: *const (),
    to_json: fn(*const ()) -> Value,
    family: &'static str,
}
unsafe impl Send for Running {}

/// A case still running after this long never ends (cases take milliseconds).
const CASE_LIMIT_S: u64 = 240;

pub struct Ctx {
    running: Vec<Mutex<Option<Running>>>,
    pub known_sigs: HashSet<String>,
    pub stop: AtomicBool,
    /// trace mode: every case is written to this directory before it runs, one file per thread
    pub trace: Option<std::path::PathBuf>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/src/").map(|x| x.1).unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        let msg: String = msg.chars().take(300).collect();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} ({})", msg, loc));
    }));
}

/// Runs code under test that is expected to refuse its input; true if it panicked.
pub fn refuses<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        f();
    }))
    .is_err()
}

/// Runs code under test that may refuse its input.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

thread_local! {
    static THREAD: Cell<usize> = Cell::new(usize::MAX);
}

fn case_json<C: Serialize>(p: *const ()) -> Value {
    // the case outlives the check that runs on it, and a check only reads it
    serde_json::to_value(unsafe { &*(p as *const C) }).unwrap_or(Value::Null)
}

fn watched<C: Serialize>(ctx: &Ctx, family: &'static str, check: Check<C>, c: &C) -> Result<Info, Fail> {
    let t = THREAD.with(|t| t.get());
    let Some(slot) = ctx.running.get(t) else { return guarded(check, c) };
    *slot.lock().unwrap() = Some(Running { since: Instant::now(), case: c as *const C as *const (), to_json: case_json::<C>, family });
    let r = guarded(check, c);
    *slot.lock().unwrap() = None;
    r
}

fn guarded<C>(check: Check<C>, c: &C) -> Result<Info, Fail> {
    match attempt(|| check(c)) {
        Ok(r) => r,
        Err(p) => Err(Fail { msg: format!("panicked: {}", p), sig: None }),
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl<C> FamilyDyn for Family<C>
where
    C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn cases(&self, thorough: bool) -> u32 {
        if thorough {
            self.thorough
        } else {
            self.quick
        }
    }

    fn run_shard(&self, ctx: &Ctx, seed: u64, cases: u32, shard: usize, stats: &Mutex<Stats>) -> Option<Violation> {
        let mut seed_bytes = [0u8; 32];
        let mut s = seed;
        for chunk in seed_bytes.chunks_mut(8) {
            // splitmix64
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            chunk.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
        }
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 4000,
            max_shrink_time: 30_000,
            max_global_rejects: u32::MAX,
            max_local_rejects: u32::MAX,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes));
        let local = RefCell::new(Stats::default());
        let failing = Cell::new(false);
        let trace_file = ctx.trace.as_ref().map(|d| d.join(format!("{}-{}.json", self.name, shard)));

        let result = runner.run(&(self.strategy)(), |c: C| {
            if ctx.stop.load(Ordering::Relaxed) && !failing.get() {
                return Ok(());
            }
            if let Some(f) = &trace_file {
                let v = json!({"family": self.name, "case": serde_json::to_value(&c).unwrap()});
                std::fs::write(f, v.to_string()).unwrap();
            }
            let r = watched(ctx, self.name, self.check, &c);
            if failing.get() {
                // shrinking: no statistics
                return match r {
                    Ok(_) => Ok(()),
                    Err(f) if f.sig.as_ref().map_or(false, |s| ctx.known_sigs.contains(s)) => Ok(()),
                    Err(f) => Err(TestCaseError::fail(f.msg)),
                };
            }
            let mut st = local.borrow_mut();
            st.evaluations += 1;
            match r {
                Ok(info) => {
                    if info.nontrivial {
                        st.nontrivial += 1;
                        let text = serde_json::to_string(&c).unwrap_or_else(|_| format!("{:?}", c));
                        st.hashes.insert(fnv(text.as_bytes()));
                        let want = st.samples.is_empty() || (st.samples.len() < 2 && st.nontrivial == 50);
                        if want && text.len() < 4000 {
                            st.samples.push(serde_json::from_str(&text).unwrap_or(Value::Null));
                        }
                    }
                    for t in info.tags {
                        *st.tags.entry(t).or_insert(0) += 1;
                    }
                    Ok(())
                }
                Err(f) => {
                    if let Some(s) = &f.sig {
                        if ctx.known_sigs.contains(s) {
                            *st.known.entry(s.clone()).or_insert(0) += 1;
                            return Ok(());
                        }
                    }
                    failing.set(true);
                    Err(TestCaseError::fail(f.msg))
                }
            }
        });
        if let Some(f) = &trace_file {
            let _ = std::fs::remove_file(f);
        }

        let local = local.into_inner();
        let mut st = stats.lock().unwrap();
        st.evaluations += local.evaluations;
        st.nontrivial += local.nontrivial;
        st.hashes.extend(local.hashes);
        for (k, v) in local.tags {
            *st.tags.entry(k).or_insert(0) += v;
        }
        for (k, v) in local.known {
            *st.known.entry(k).or_insert(0) += v;
        }
        if st.samples.len() < 2 {
            st.samples.extend(local.samples.into_iter().take(1));
        }
        drop(st);

        match result {
            Ok(()) => None,
            Err(TestError::Fail(_, c)) => {
                ctx.stop.store(true, Ordering::Relaxed);
                let msg = match watched(ctx, self.name, self.check, &c) {
                    Ok(_) => String::from("not reproduced when re-run outside the search"),
                    Err(f) => f.msg,
                };
                Some(Violation { case: serde_json::to_value(&c).unwrap(), msg, shard })
            }
            Err(TestError::Abort(r)) => {
                println!("ERROR: generation aborted in {}: {}", self.name, r);
                std::process::exit(2);
            }
        }
    }

    fn replay(&self, case: &Value) -> Result<Result<Info, Fail>, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        Ok(guarded(self.check, &c))
    }
}

pub struct Property {
    pub id: &'static str,
    pub families: Vec<Box<dyn FamilyDyn>>,
    pub assumptions: Vec<&'static str>,
}

pub struct Known {
    pub sig: String,
    pub what: String,
}

/// Lines `finding: property=<id> sig=<signature> <what fails>` of the known-findings file.
fn read_known(path: &str, id: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut res = vec![];
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("finding: ") else { continue };
        let Some(rest) = rest.strip_prefix(&format!("property={} ", id)) else { continue };
        let Some(rest) = rest.strip_prefix("sig=") else { continue };
        let (sig, what) = rest.split_once(' ').unwrap_or((rest, ""));
        res.push(Known { sig: sig.to_string(), what: what.to_string() });
    }
    res
}

fn trim_sample(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() > 900 {
        Value::String(format!("{}...", s.chars().take(900).collect::<String>()))
    } else {
        v.clone()
    }
}

fn env(name: &str) -> Option<String> {
    std::env::var(name).ok()
}

/// Commands: `run <id> <quick|thorough>`, `replay <file>`, `list`. Exit 0 held, 1 violated, 2 error.
pub fn main_with(make: fn(&str) -> Option<Property>, ids: &[&str]) {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for i in ids {
                println!("{}", i);
            }
            0
        }
        Some("run") => run(make, &args[2], args.get(3).map_or(false, |t| t == "thorough")),
        Some("replay") => replay(make, &args[2]),
        _ => {
            println!("usage: run <id> <quick|thorough> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}

fn replay(make: fn(&str) -> Option<Property>, file: &str) -> i32 {
    std::env::set_var("VERIF_REPLAY", "1");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let id = v["property"].as_str().expect("property");
    let fam = v["family"].as_str().expect("family");
    let prop = make(id).expect("unknown property");
    let fam = prop.families.iter().find(|f| f.name() == fam).expect("unknown family");
    match fam.replay(&v["case"]) {
        Err(e) => {
            println!("ERROR: bad case: {}", e);
            2
        }
        Ok(Ok(_)) => {
            println!("held: {} {}", id, fam.name());
            0
        }
        Ok(Err(f)) => {
            println!("{}", f.msg);
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
    }
}

fn report(verif: &str, id: &str, family: &str, seed: u64, v: &Violation) {
    let dir = format!("{}/out", verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.json", dir, id, family);
    let body = json!({"property": id, "family": family, "seed": seed, "message": v.msg, "case": v.case});
    std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
    println!("{}: {}", family, v.msg);
    println!("VIOLATION property={} replay={}", id, path);
}

fn run(make: fn(&str) -> Option<Property>, id: &str, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let Some(prop) = make(id) else {
        println!("ERROR: unknown property {}", id);
        return 2;
    };
    let seed: u64 = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let verif = env("VERIF_DIR").unwrap_or_else(|| "/verif".into());
    let known = read_known(&format!("{}/KNOWN_FINDINGS.txt", verif), id);
    let threads: usize = env("VERIF_THREADS").and_then(|s| s.parse().ok()).unwrap_or(8);
    let scale: f64 = env("VERIF_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = env("VERIF_FAMILY");
    let ctx = Ctx {
        running: (0..threads).map(|_| Mutex::new(None)).collect(),
        known_sigs: known.iter().map(|k| k.sig.clone()).collect(),
        stop: AtomicBool::new(false),
        trace: env("VERIF_TRACE").map(Into::into),
    };

    // fixed work, split into shards whose seeds do not depend on the number of threads
    const SHARDS: usize = 16;
    let fams: Vec<&Box<dyn FamilyDyn>> =
        prop.families.iter().filter(|f| only.as_ref().map_or(true, |o| o == f.name())).collect();
    let stats: Vec<Mutex<Stats>> = fams.iter().map(|_| Mutex::new(Stats::default())).collect();
    let times: Vec<Mutex<f64>> = fams.iter().map(|_| Mutex::new(0.0)).collect();
    let mut jobs = vec![];
    for shard in 0..SHARDS {
        for (fi, f) in fams.iter().enumerate() {
            let total = (f.cases(thorough) as f64 * scale).ceil() as usize;
            let n = total / SHARDS + if shard < total % SHARDS { 1 } else { 0 };
            if n > 0 {
                jobs.push((fi, shard, n as u32));
            }
        }
    }
    let next = AtomicUsize::new(0);
    let found: Mutex<Vec<(usize, Violation)>> = Mutex::new(vec![]);
    let done = AtomicBool::new(false);
    let left = AtomicUsize::new(threads);
    std::thread::scope(|s| {
        s.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                for slot in &ctx.running {
                    let slot = slot.lock().unwrap();
                    if let Some(r) = &*slot {
                        if r.since.elapsed().as_secs() >= CASE_LIMIT_S {
                            let v = Violation { case: (r.to_json)(r.case), msg: format!("still running after {} s", CASE_LIMIT_S), shard: 0 };
                            report(&verif, id, r.family, seed, &v);
                            let ev = json!({"property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
                                "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "a case that does not end", "samples": [trim_sample(&v.case)]},
                                "wall_s": t0.elapsed().as_secs_f64(), "violations": 1});
                            let _ = std::fs::write(format!("{}/evidence/{}.json", verif, id), ev.to_string());
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
        for ti in 0..threads {
            let (next, jobs, fams, ctx, stats, found, times, done, left) = (&next, &jobs, &fams, &ctx, &stats, &found, &times, &done, &left);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || { THREAD.with(|t| t.set(ti)); loop {
                    let j = next.fetch_add(1, Ordering::SeqCst);
                    if j >= jobs.len() || ctx.stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let (fi, shard, n) = jobs[j];
                    let f = &fams[fi];
                    let sd = fnv(format!("{}/{}/{}/{}", seed, id, f.name(), shard).as_bytes());
                    let t = Instant::now();
                    if let Some(v) = f.run_shard(&ctx, sd, n, shard, &stats[fi]) {
                        found.lock().unwrap().push((fi, v));
                    }
                    *times[fi].lock().unwrap() += t.elapsed().as_secs_f64();
                }
                    if left.fetch_sub(1, Ordering::SeqCst) == 1 {
                        done.store(true, Ordering::Relaxed);
                    }
                })
                .unwrap();
        }
    });

    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|(fi, v)| (*fi, v.shard));

    let mut evaluations = 0;
    let mut distinct = 0;
    let mut samples = vec![];
    let mut rules = vec![];
    let mut per_family = serde_json::Map::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    for (fi, f) in fams.iter().enumerate() {
        let st = stats[fi].lock().unwrap();
        evaluations += st.evaluations;
        distinct += st.hashes.len() as u64;
        rules.push(format!("{}: {}", f.name(), f.rule()));
        for s in st.samples.iter().take(2) {
            samples.push(json!({"family": f.name(), "case": trim_sample(s)}));
        }
        for (k, v) in &st.known {
            *known_hits.entry(k.clone()).or_insert(0) += v;
        }
        per_family.insert(
            f.name().into(),
            json!({"evaluations": st.evaluations, "nontrivial": st.nontrivial, "distinct_nontrivial": st.hashes.len(),
                   "classes": st.tags, "thread_seconds": *times[fi].lock().unwrap()}),
        );
    }

    for k in &known {
        println!("KNOWN-FINDING: property={} {}", id, k.what);
    }

    let mut code = 0;
    if let Some((fi, v)) = found.into_iter().next() {
        report(&verif, id, fams[fi].name(), seed, &v);
        code = 1;
    }

    let evidence = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": rules.join(" | "),
            "samples": samples,
            "families": per_family,
            "known_finding_hits": known_hits,
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if code == 1 { 1 } else { 0 },
    });
    if only.is_none() && env("VERIF_TRACE").is_none() {
        let dir = format!("{}/evidence", verif);
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{}/{}.json", dir, id), serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
    }
    println!("{} {} cases, {} distinct non-trivial, {:.1}s", id, evaluations, distinct, t0.elapsed().as_secs_f64());
    if env("VERIF_VERBOSE").is_some() {
        println!("{}", serde_json::to_string_pretty(&evidence["coverage"]["families"]).unwrap());
    }
    code
}
