//! Drives generated cases through a check, in parallel and deterministically, shrinks failures, writes replay
//! files and evidence.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::de::DeserializeOwned;
use serde::Serialize;

pub const WORKERS: u64 = 8;

/// What a case reports about itself.
#[derive(Default)]
pub struct Obs {
    /// the case exercised the property by the stated rule
    pub nontrivial: bool,
    /// how often interesting things happened (classification of the generated cases)
    pub tags: BTreeMap<String, u64>,
    /// keys of listed findings that showed up (see known_findings.json)
    pub known: BTreeSet<String>,
}

impl Obs {
    pub fn tag(&mut self, t: impl Into<String>) {
        *self.tags.entry(t.into()).or_default() += 1;
    }
    pub fn tagn(&mut self, t: impl Into<String>, n: u64) {
        *self.tags.entry(t.into()).or_default() += n;
    }
}

/// A broken property. `key` is empty unless the failure has a precise identity that can be listed as a finding.
#[derive(Debug, Clone)]
pub struct Viol {
    pub key: String,
    pub msg: String,
}
impl From<String> for Viol {
    fn from(msg: String) -> Self {
        Viol {
            key: String::new(),
            msg,
        }
    }
}
impl From<&str> for Viol {
    fn from(msg: &str) -> Self {
        msg.to_string().into()
    }
}
pub type V = Result<(), Viol>;

#[macro_export]
macro_rules! viol {
    ($($t:tt)*) => { return Err($crate::engine::Viol::from(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::engine::Viol::from(format!($($t)*))) } };
}

/// One family of generated cases for a property.
pub trait Part: Send + Sync {
    fn name(&self) -> &'static str;
    fn search(&self, ctx: &Ctx) -> PartResult;
    fn replay(&self, case: &str, ctx: &Ctx) -> Result<Obs, Viol>;
}

pub struct Gen<C: 'static> {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strategy: fn(bool) -> BoxedStrategy<C>,
    pub run: fn(&C, &mut Obs) -> V,
}

pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub known: BTreeSet<String>,
    /// scales the case counts (development only)
    pub scale: f64,
}

#[derive(Default)]
pub struct PartResult {
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub tags: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub failure: Option<(String, Viol)>,
    pub known: BTreeSet<String>,
    pub error: Option<String>,
}

fn h64(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub fn run_case<C>(f: fn(&C, &mut Obs) -> V, c: &C, known: &BTreeSet<String>) -> (Obs, V) {
    let mut o = Obs::default();
    let r = match catch_unwind(AssertUnwindSafe(|| f(c, &mut o))) {
        Ok(r) => r,
        // a panic outside contract code is a defect of the harness itself: never a violation
        Err(p) => panic!("HARNESS: {}", crate::chain::panic_text(p)),
    };
    match r {
        Err(v) if !v.key.is_empty() && known.contains(&v.key) => {
            o.known.insert(v.key);
            (o, Ok(()))
        }
        r => (o, r),
    }
}

impl<C> Part for Gen<C>
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn replay(&self, case: &str, ctx: &Ctx) -> Result<Obs, Viol> {
        let c: C = serde_json::from_str(case).expect("replay file does not fit this check");
        let (o, r) = run_case(self.run, &c, &ctx.known);
        r.map(|_| o)
    }
    fn search(&self, ctx: &Ctx) -> PartResult {
        let total = if ctx.thorough { self.thorough } else { self.quick };
        let total = ((total as f64 * ctx.scale) as u32).max(WORKERS as u32);
        let results = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for w in 0..WORKERS {
                let results = &results;
                let n = total / WORKERS as u32
                    + u32::from((w as u32) < total % WORKERS as u32);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let r = catch_unwind(AssertUnwindSafe(|| self.worker(ctx, w, n)))
                            .unwrap_or_else(|p| PartResult {
                                error: Some(crate::chain::panic_text(p)),
                                ..Default::default()
                            });
                        results.lock().unwrap().push((w, r));
                    })
                    .expect("thread");
            }
        });
        let mut all = results.into_inner().unwrap();
        all.sort_by_key(|(w, _)| *w);
        let mut out = PartResult::default();
        for (_, r) in all {
            out.evaluations += r.evaluations;
            out.distinct_nontrivial += r.distinct_nontrivial;
            for (k, v) in r.tags {
                *out.tags.entry(k).or_default() += v;
            }
            out.known.extend(r.known);
            if out.samples.len() < 3 {
                out.samples.extend(r.samples.into_iter().take(1));
            }
            if out.failure.is_none() {
                out.failure = r.failure;
            }
            if out.error.is_none() {
                out.error = r.error;
            }
        }
        out
    }
}

impl<C> Gen<C>
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    fn worker(&self, ctx: &Ctx, w: u64, n: u32) -> PartResult {
        let mut seed = [0u8; 32];
        seed[..8].copy_from_slice(&ctx.seed.to_le_bytes());
        seed[8..16].copy_from_slice(&h64(ctx.prop).to_le_bytes());
        seed[16..24].copy_from_slice(&h64(self.name).to_le_bytes());
        seed[24..].copy_from_slice(&w.to_le_bytes());
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
        let cfg = Config {
            cases: n,
            failure_persistence: None,
            max_shrink_iters: 4000,
            max_shrink_time: 40_000,
            max_global_rejects: 1_000_000,
            verbose: 0,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let res = std::cell::RefCell::new(PartResult::default());
        let seen = std::cell::RefCell::new(HashSet::<u64>::new());
        let failed = std::cell::Cell::new(false);
        let strat = (self.strategy)(ctx.thorough).no_shrink_wrapper();
        let r = runner.run(&strat, |c: C| {
            let (o, r) = run_case(self.run, &c, &ctx.known);
            let mut res = res.borrow_mut();
            if !failed.get() {
                res.evaluations += 1;
                for (k, v) in o.tags {
                    *res.tags.entry(k).or_default() += v;
                }
                res.known.extend(o.known);
                if o.nontrivial {
                    let s = serde_json::to_string(&c).unwrap_or_default();
                    if seen.borrow_mut().insert(h64(&s)) {
                        res.distinct_nontrivial += 1;
                        if res.samples.is_empty() || (res.samples.len() < 2 && s.len() < 900) {
                            res.samples.push(sample(&s));
                        }
                    }
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(v) => {
                    failed.set(true);
                    Err(TestCaseError::fail(v.msg))
                }
            }
        });
        let mut res = res.into_inner();
        match r {
            Ok(()) => {}
            Err(TestError::Fail(_, c)) => {
                // the shrunk case, run once more for its message
                let (_, r) = run_case(self.run, &c, &ctx.known);
                match r {
                    Err(v) => {
                        res.failure = Some((serde_json::to_string(&c).unwrap(), v))
                    }
                    Ok(()) => res.error = Some("a failing case did not fail again".into()),
                }
            }
            Err(TestError::Abort(r)) => res.error = Some(format!("generator gave up: {r}")),
        }
        res
    }
}

trait NoShrink: Sized {
    fn no_shrink_wrapper(self) -> Self {
        self
    }
}
impl<C> NoShrink for BoxedStrategy<C> {}

fn sample(s: &str) -> serde_json::Value {
    if s.len() <= 1500 {
        serde_json::Value::String(s.to_string())
    } else {
        let mut e = 1500;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        serde_json::Value::String(format!("{}...", &s[..e]))
    }
}

/// a saved case; the case itself stays text because amounts do not fit JSON values
#[derive(Serialize, serde::Deserialize)]
struct Saved {
    property: String,
    part: String,
    #[serde(default)]
    seed: u64,
    #[serde(default)]
    message: String,
    #[serde(default)]
    key: String,
    case: Box<serde_json::value::RawValue>,
}
fn load(path: &std::path::Path) -> Saved {
    let t = std::fs::read_to_string(path).expect("saved case");
    serde_json::from_str(&t).unwrap_or_else(|e| panic!("{}: {e}", path.display()))
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Box<dyn Part>>,
}

pub fn root() -> PathBuf {
    std::env::var("VP_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from(env!("CARGO_MANIFEST_DIR")).join(".."))
}

fn known_for(id: &str) -> Vec<(String, String)> {
    let p = root().join("known_findings.json");
    let Ok(s) = std::fs::read_to_string(p) else {
        return vec![];
    };
    let v: serde_json::Value = serde_json::from_str(&s).expect("known_findings.json");
    v["findings"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .filter(|f| f["property"] == id && f["status"] == "known")
        .map(|f| {
            (
                f["key"].as_str().unwrap_or_default().to_string(),
                f["what"].as_str().unwrap_or_default().to_string(),
            )
        })
        .collect()
}

fn write_replay(id: &str, part: &str, seed: u64, case: &str, v: &Viol) -> PathBuf {
    let dir = root().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let body = Saved {
        property: id.into(),
        part: part.into(),
        seed,
        message: v.msg.clone(),
        key: v.key.clone(),
        case: serde_json::value::RawValue::from_string(case.into()).unwrap(),
    };
    let text = serde_json::to_string_pretty(&body).unwrap();
    let path = dir.join(format!("{id}-{:016x}.json", h64(case)));
    std::fs::write(&path, text).ok();
    path
}

/// exit code of the check
pub fn check(p: &Property, thorough: bool, seed: u64, scale: f64) -> i32 {
    let t0 = Instant::now();
    let listed = known_for(p.id);
    let ctx = Ctx {
        prop: p.id,
        seed,
        thorough,
        known: listed.iter().map(|(k, _)| k.clone()).collect(),
        scale,
    };
    let mut tot = PartResult::default();
    let mut parts = vec![];
    let mut viols = vec![];
    let mut known = BTreeSet::new();

    // committed regression cases first
    let dir = root().join("corpus").join(p.id);
    let mut files: Vec<_> = std::fs::read_dir(&dir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    for f in &files {
        let v = load(f);
        let Some(part) = p.parts.iter().find(|x| v.part == x.name()) else {
            continue;
        };
        tot.evaluations += 1;
        match part.replay(v.case.get(), &ctx) {
            Ok(o) => known.extend(o.known),
            Err(e) => {
                let path = write_replay(p.id, part.name(), seed, v.case.get(), &e);
                viols.push((path, e));
            }
        }
    }
    let corpus = files.len();

    for part in &p.parts {
        let t = Instant::now();
        let r = part.search(&ctx);
        if let Some(e) = r.error {
            eprintln!("ERROR property={} part={}: {e}", p.id, part.name());
            return 3;
        }
        if let Some((case, v)) = &r.failure {
            let path = write_replay(p.id, part.name(), seed, case, v);
            viols.push((path, v.clone()));
        }
        eprintln!(
            "{} {}: {} cases, {} non-trivial, {:.1}s {:?}",
            p.id,
            part.name(),
            r.evaluations,
            r.distinct_nontrivial,
            t.elapsed().as_secs_f64(),
            r.tags
        );
        parts.push(serde_json::json!({"part": part.name(), "evaluations": r.evaluations,
            "distinct_nontrivial": r.distinct_nontrivial, "classes": r.tags}));
        tot.evaluations += r.evaluations;
        tot.distinct_nontrivial += r.distinct_nontrivial;
        known.extend(r.known);
        for s in r.samples.into_iter().take(2) {
            tot.samples
                .push(serde_json::json!({"part": part.name(), "case": s}));
        }
    }
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot.evaluations,
            "distinct_nontrivial": tot.distinct_nontrivial,
            "rule": p.rule,
            "samples": tot.samples,
            "parts": parts,
            "regression_cases": corpus,
            "known_findings_seen": known.iter().collect::<Vec<_>>(),
        },
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": viols.len(),
    });
    std::fs::create_dir_all(root().join("evidence")).ok();
    std::fs::write(
        root().join("evidence").join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("evidence");
    for (k, what) in &listed {
        if known.contains(k) {
            println!("KNOWN-FINDING: property={} {}", p.id, what);
        }
    }
    for (path, v) in &viols {
        println!("  {}", v.msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    i32::from(!viols.is_empty())
}

pub fn replay(props: &[Property], file: &str) -> i32 {
    let v = load(std::path::Path::new(file));
    let id = v.property.as_str();
    let p = props.iter().find(|p| p.id == id).expect("property");
    let ctx = Ctx {
        prop: p.id,
        seed: 0,
        thorough: false,
        known: BTreeSet::new(),
        scale: 1.0,
    };
    let part = p
        .parts
        .iter()
        .find(|x| v.part == x.name())
        .expect("part");
    match part.replay(v.case.get(), &ctx) {
        Ok(_) => {
            println!("not reproduced");
            0
        }
        Err(e) => {
            println!("  {}", e.msg);
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}
