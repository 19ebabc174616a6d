//! Runs properties: sharded proptest campaigns with fixed seeds, statistics of what
//! was generated, replay files for shrunk failures, and the evidence file.
use crate::mix;
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, Ordering};

pub const SHARDS: u64 = 8;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub thorough: bool,
    /// multiplier on case counts (for experiments)
    pub scale: f64,
    pub only: Option<String>,
    /// directory that always holds the case each shard is executing, so that a
    /// case which kills the process can be identified
    pub inflight: Option<String>,
}

/// What one executed case reports about itself.
#[derive(Default)]
pub struct Tally {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub note: Option<String>,
    /// elementary comparisons made against the oracle in this case
    pub compared: u64,
}
impl Tally {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l)
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l)
        }
    }
}

#[derive(Default, Clone)]
pub struct Report {
    pub sub: String,
    pub evaluations: u64,
    pub compared: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(String, Value)>,
    pub error: Option<String>,
}

pub trait Sub: Send + Sync {
    fn name(&self) -> &str;
    fn run(&self, pid: &str, cfg: &Cfg) -> Report;
    fn replay(&self, input: &Value) -> Result<(), String>;
}

pub struct Check<I> {
    pub name: &'static str,
    pub strategy: Box<dyn Fn(bool) -> BoxedStrategy<I> + Send + Sync>,
    pub body: Box<dyn Fn(&I, &mut Tally) -> Result<(), String> + Send + Sync>,
    pub quick: u32,
    pub thorough: u32,
}

impl<I> Check<I>
where
    I: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
{
    #[allow(clippy::new_ret_no_self)]
    pub fn new(
        name: &'static str,
        quick: u32,
        thorough: u32,
        strategy: impl Fn(bool) -> BoxedStrategy<I> + Send + Sync + 'static,
        body: impl Fn(&I, &mut Tally) -> Result<(), String> + Send + Sync + 'static,
    ) -> Box<dyn Sub> {
        Box::new(Check {
            name,
            quick,
            thorough,
            strategy: Box::new(strategy),
            body: Box::new(body),
        })
    }
}

fn fnv(s: &str) -> u64 {
    s.bytes()
        .fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

impl<I> Sub for Check<I>
where
    I: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
{
    fn name(&self) -> &str {
        self.name
    }

    fn run(&self, pid: &str, cfg: &Cfg) -> Report {
        let total = if cfg.thorough { self.thorough } else { self.quick };
        let total = ((total as f64 * cfg.scale).ceil() as u64).max(1);
        let stop = AtomicBool::new(false);
        let shards: Vec<Report> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..SHARDS)
                .map(|k| {
                    let stop = &stop;
                    let cases = total / SHARDS + (k < total % SHARDS) as u64;
                    let pid = pid.to_string();
                    let cfg = cfg.clone();
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || self.shard(&pid, &cfg, k, cases as u32, stop))
                        .expect("spawn")
                })
                .collect();
            hs.into_iter()
                .map(|h| match h.join() {
                    Ok(r) => r,
                    Err(p) => Report {
                        error: Some(format!(
                            "harness panic: {}",
                            p.downcast_ref::<String>()
                                .cloned()
                                .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_default()
                        )),
                        ..Default::default()
                    },
                })
                .collect()
        });
        let mut r = Report {
            sub: self.name.to_string(),
            ..Default::default()
        };
        for s in shards {
            r.evaluations += s.evaluations;
            r.compared += s.compared;
            r.distinct.extend(s.distinct);
            for (k, v) in s.labels {
                *r.labels.entry(k).or_default() += v;
            }
            for v in s.samples {
                if r.samples.len() < 3 {
                    r.samples.push(v)
                }
            }
            if r.failure.is_none() {
                r.failure = s.failure
            }
            if r.error.is_none() {
                r.error = s.error
            }
        }
        r
    }

    fn replay(&self, input: &Value) -> Result<(), String> {
        let i: I = serde_json::from_value(input.clone()).map_err(|e| format!("bad replay: {e}"))?;
        (self.body)(&i, &mut Tally::default())
    }
}

impl<I> Check<I>
where
    I: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
{
    fn shard(&self, pid: &str, cfg: &Cfg, k: u64, cases: u32, stop: &AtomicBool) -> Report {
        let mut rep = Report::default();
        if cases == 0 {
            return rep;
        }
        let mut seed = [0u8; 32];
        let base = mix(cfg.seed ^ fnv(pid) ^ fnv(self.name).rotate_left(17) ^ mix(k + 1));
        for (i, c) in seed.chunks_mut(8).enumerate() {
            c.copy_from_slice(&mix(base.wrapping_add(i as u64)).to_le_bytes());
        }
        let mut runner = TestRunner::new_with_rng(
            Config {
                cases,
                failure_persistence: None,
                max_shrink_iters: 4000,
                max_shrink_time: 45_000,
                ..Config::default()
            },
            TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
        );
        let strat = (self.strategy)(cfg.thorough);
        let inflight = cfg.inflight.as_ref().map(|d| {
            let path = format!("{d}/{}-{k}.json", self.name);
            (std::fs::File::create(&path).expect("inflight file"), path)
        });
        let st = RefCell::new((Report::default(), false));
        let res = runner.run(&strat, |input| {
            let mut t = Tally::default();
            let mut b = st.borrow_mut();
            if let Some((file, _)) = &inflight {
                use std::os::unix::fs::FileExt;
                let text = serde_json::to_string(&json!({"property": pid, "sub": self.name, "message": "kills the process", "input": &input, "seed": cfg.seed})).unwrap_or_default();
                let _ = file.set_len(0);
                let _ = file.write_all_at(text.as_bytes(), 0);
            }
            if !b.1 && stop.load(Ordering::Relaxed) {
                // another shard has a violation: finish quickly
                return Ok(());
            }
            let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (self.body)(&input, &mut t))) {
                Ok(r) => r,
                Err(p) => {
                    // a panic outside the code under test is an error of this harness
                    b.0.error.get_or_insert(format!(
                        "harness panic: {} on {}",
                        crate::problem::panic_text(p),
                        serde_json::to_string(&input).unwrap_or_default()
                    ));
                    stop.store(true, Ordering::Relaxed);
                    return Ok(());
                }
            };
            if !b.1 {
                let rp = &mut b.0;
                rp.evaluations += 1;
                rp.compared += t.compared;
                if t.nontrivial {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    serde_json::to_string(&input).unwrap_or_default().hash(&mut h);
                    if rp.distinct.insert(h.finish()) && rp.samples.is_empty() && rp.evaluations > 20 {
                        let mut v = serde_json::to_value(&input).unwrap_or(Value::Null);
                        clip(&mut v);
                        rp.samples.push(json!({"sub": self.name, "input": v, "note": t.note}));
                    }
                }
                for l in t.labels {
                    *rp.labels.entry(l.to_string()).or_default() += 1;
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(e) => {
                    b.1 = true;
                    stop.store(true, Ordering::Relaxed);
                    Err(TestCaseError::fail(e))
                }
            }
        });
        if let Some((_, path)) = &inflight {
            let _ = std::fs::remove_file(path);
        }
        rep.evaluations = 0;
        let (mut got, _) = st.into_inner();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, value)) => {
                let mut t = Tally::default();
                let msg = match (self.body)(&value, &mut t) {
                    Err(e) => e,
                    Ok(()) => reason.message().to_string(),
                };
                got.failure = Some((msg, serde_json::to_value(&value).unwrap_or(Value::Null)));
            }
            Err(TestError::Abort(reason)) => {
                got.error = Some(format!("generator aborted: {}", reason.message()))
            }
        }
        got
    }
}

/// Shorten long arrays in evidence samples.
fn clip(v: &mut Value) {
    match v {
        Value::Array(a) => {
            if a.len() > 8 {
                let n = a.len();
                a.truncate(6);
                a.push(json!(format!("... {} in all", n)));
            }
            a.iter_mut().for_each(clip)
        }
        Value::Object(o) => o.values_mut().for_each(clip),
        _ => {}
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn Sub>>,
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

/// `<bin> check <ID> --tier T --seed S --evidence F --replays D [--only SUB] [--scale X]`
/// `<bin> replay <file>`
/// `<bin> list`
pub fn main(props: Vec<Property>) -> i32 {
    crate::problem::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}: {}", p.id, p.subs.iter().map(|s| s.name().to_string()).collect::<Vec<_>>().join(" "));
            }
            0
        }
        Some("replay") => {
            let file = &args[1];
            let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("read replay"))
                .expect("parse replay");
            let (id, sub) = (v["property"].as_str().unwrap(), v["sub"].as_str().unwrap());
            let p = props.iter().find(|p| p.id == id).expect("property");
            let s = p.subs.iter().find(|s| s.name() == sub).expect("sub");
            match s.replay(&v["input"]) {
                Ok(()) => {
                    println!("replay of {file}: property {id} holds on this input");
                    0
                }
                Err(e) => {
                    println!("replay of {file}: {e}");
                    println!("VIOLATION property={id} replay={file}");
                    1
                }
            }
        }
        Some("check") => {
            let id = &args[1];
            let Some(p) = props.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id}");
                return 2;
            };
            let cfg = Cfg {
                seed: arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough: arg(&args, "--tier").as_deref() == Some("thorough"),
                scale: arg(&args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
                only: arg(&args, "--only"),
                inflight: arg(&args, "--inflight"),
            };
            let replays = arg(&args, "--replays").unwrap_or("/tmp".into());
            let t0 = std::time::Instant::now();
            let mut reports = vec![];
            let mut code = 0;
            let mut violations = 0;
            for s in &p.subs {
                if cfg.only.as_deref().is_some_and(|o| o != s.name()) {
                    continue;
                }
                let t1 = std::time::Instant::now();
                let r = s.run(p.id, &cfg);
                println!(
                    "{} {:<14} cases={} nontrivial={} comparisons={} {:.1}s {}",
                    p.id,
                    s.name(),
                    r.evaluations,
                    r.distinct.len(),
                    r.compared,
                    t1.elapsed().as_secs_f64(),
                    r.labels.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
                );
                if let Some(e) = &r.error {
                    eprintln!("{} {}: ERROR {e}", p.id, s.name());
                    if code == 0 {
                        code = 2;
                    }
                }
                let failed = r.failure.is_some();
                if let Some((msg, input)) = &r.failure {
                    let body = json!({"property": p.id, "sub": s.name(), "message": msg, "input": input, "seed": cfg.seed});
                    let text = serde_json::to_string_pretty(&body).unwrap();
                    let path = format!("{replays}/{}-{}-{:08x}.json", p.id, s.name(), fnv(&text) as u32);
                    std::fs::write(&path, &text).expect("write replay");
                    println!("{} {}: {msg}", p.id, s.name());
                    println!("VIOLATION property={} replay={path}", p.id);
                    code = 1;
                    violations += 1;
                }
                reports.push(r);
                if failed {
                    break;
                }
            }
            if let Some(f) = arg(&args, "--evidence") {
                let subs: serde_json::Map<String, Value> = reports
                    .iter()
                    .map(|r| {
                        (
                            r.sub.clone(),
                            json!({"cases": r.evaluations, "distinct_nontrivial": r.distinct.len(),
                                   "comparisons": r.compared, "classes": r.labels}),
                        )
                    })
                    .collect();
                let ev = json!({
                    "property": p.id,
                    "tier": if cfg.thorough { "thorough" } else { "quick" },
                    "seed": cfg.seed,
                    "level": "exploration",
                    "coverage": {
                        "evaluations": reports.iter().map(|r| r.evaluations).sum::<u64>(),
                        "distinct_nontrivial": reports.iter().map(|r| r.distinct.len() as u64).sum::<u64>(),
                        "rule": p.rule,
                        "samples": reports.iter().flat_map(|r| r.samples.iter().take(1).cloned()).collect::<Vec<_>>(),
                        "subchecks": subs,
                    },
                    "assumptions": p.assumptions,
                    "wall_s": t0.elapsed().as_secs_f64(),
                    "violations": violations,
                });
                std::fs::write(&f, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");
            }
            code
        }
        _ => {
            eprintln!("usage: check|replay|list");
            2
        }
    }
}
