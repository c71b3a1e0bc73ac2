//! Drives generated cases, shrinks what fails, writes evidence and replays.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestRunner};
use crate::isolate;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

/// What makes a case not pass.
#[derive(Debug, Clone)]
pub enum Bad {
    /// The property is broken
    Violation(String),
    /// The check couldn't decide
    Harness(String),
}

impl From<std::io::Error> for Bad {
    fn from(e: std::io::Error) -> Self {
        Bad::Harness(format!("io error in the harness: {e}"))
    }
}

#[derive(Debug, Clone, Default)]
pub struct Pass {
    pub nontrivial: bool,
    /// What the case exercised, counted in the evidence
    pub tags: Vec<&'static str>,
}

impl Pass {
    pub fn nontrivial(b: bool) -> Pass {
        Pass { nontrivial: b, tags: vec![] }
    }
}

pub type Res = Result<Pass, Bad>;

#[macro_export]
macro_rules! violation {
    ($($t:tt)*) => { return Err($crate::Bad::Violation(format!($($t)*))) };
}

pub struct Report {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub root: PathBuf,
    rule: Vec<String>,
    start: Instant,
    budget: Duration,
    evaluations: u64,
    nontrivial: HashSet<u64>,
    /// distinct by construction
    nontrivial_enumerated: u64,
    samples: Vec<Value>,
    tags: BTreeMap<String, u64>,
    parts: BTreeMap<String, (u64, u64)>,
    pub extra: BTreeMap<String, Value>,
    assumptions: Vec<String>,
    replay: Option<(String, Value)>,
    /// Only shrink that case of that part
    shrink: Option<(String, u64)>,
    exhaustive: bool,
}

fn fnv(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

impl Report {
    pub fn new(id: &str, root: &Path) -> Report {
        let thorough =
            std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let budget = std::env::var("RV_BUDGET_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 1500 } else { 200 });
        Report {
            id: id.to_string(),
            thorough,
            seed,
            root: root.to_path_buf(),
            rule: vec![],
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            evaluations: 0,
            nontrivial: HashSet::new(),
            nontrivial_enumerated: 0,
            samples: vec![],
            tags: BTreeMap::new(),
            parts: BTreeMap::new(),
            extra: BTreeMap::new(),
            assumptions: vec![],
            replay: None,
            shrink: None,
            exhaustive: false,
        }
    }

    pub fn load_replay(&mut self, path: &str) {
        let s = std::fs::read_to_string(path).expect("replay file");
        let v: Value = serde_json::from_str(&s).expect("replay json");
        self.replay =
            Some((v["part"].as_str().unwrap().to_string(), v["case"].clone()));
    }

    pub fn rule(&mut self, s: &str) {
        self.rule.push(s.to_string());
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// `quick` cases in the quick tier, `thorough` in the thorough one.
    pub fn n(&self, quick: u32, thorough: u32) -> u32 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Only a crash is being shrunk.
    pub fn shrinking(&self) -> bool {
        self.shrink.is_some()
    }

    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.budget
    }

    /// Generate `cases` cases of the part and check them all. Ends the process
    /// at the first violation, with its minimal reproduction.
    pub fn drive<S>(
        &mut self,
        part: &str,
        strat: S,
        cases: u32,
        mut f: impl FnMut(&S::Value) -> Res,
    ) where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Clone + std::fmt::Debug,
    {
        if let Some((p, case)) = &self.replay {
            if p != part {
                return;
            }
            let case: S::Value =
                serde_json::from_value(case.clone()).expect("replay case");
            isolate::begin(part, 0, || serde_json::to_string(&case).unwrap());
            let r = f(&case);
            match r {
                Ok(_) => println!("replay passes"),
                Err(b) => self.fail(part, serde_json::to_value(&case).unwrap(), b),
            }
            return;
        }
        let mut runner = TestRunner::new(Config {
            failure_persistence: None,
            rng_algorithm: RngAlgorithm::ChaCha,
            rng_seed: RngSeed::Fixed(
                self.seed ^ fnv(&format!("{}/{}", self.id, part)),
            ),
            ..Config::default()
        });
        if let Some((p, n)) = self.shrink.clone() {
            if p == part {
                for _ in 0..n {
                    strat.new_tree(&mut runner).expect("generator");
                }
                let mut tree = strat.new_tree(&mut runner).expect("generator");
                Self::shrink_crash(part, n, &mut tree, &mut f);
            }
            return;
        }
        for i in 0..cases {
            if self.out_of_time() {
                break;
            }
            let mut tree = strat.new_tree(&mut runner).expect("generator");
            let case = tree.current();
            let mut f = |c: &S::Value| {
                isolate::begin(part, i as u64, || {
                    serde_json::to_string(c).unwrap()
                });
                f(c)
            };
            match f(&case) {
                Ok(pass) => self.count(part, &case, pass),
                Err(Bad::Harness(e)) => self.fail(
                    part,
                    serde_json::to_value(&case).unwrap(),
                    Bad::Harness(e),
                ),
                Err(first) => {
                    let mut best = (case, first);
                    let t = Instant::now();
                    let mut iters = 0;
                    'shrink: while tree.simplify() {
                        loop {
                            iters += 1;
                            if t.elapsed() > Duration::from_secs(60)
                                || iters > 600
                            {
                                break 'shrink;
                            }
                            let c = tree.current();
                            match f(&c) {
                                Err(b @ Bad::Violation(_)) => {
                                    best = (c, b);
                                    break;
                                }
                                _ => {
                                    if !tree.complicate() {
                                        break 'shrink;
                                    }
                                }
                            }
                        }
                    }
                    self.fail(
                        part,
                        serde_json::to_value(&best.0).unwrap(),
                        best.1,
                    );
                }
            }
        }
    }

    /// Shrinks a case whose evaluation ends the process.
    fn shrink_crash<T>(
        part: &str,
        index: u64,
        tree: &mut T,
        f: &mut impl FnMut(&T::Value) -> Res,
    ) where
        T: ValueTree,
        T::Value: Serialize,
    {
        let mut fails = |c: &T::Value| {
            isolate::fails(|| !matches!(f(c), Err(Bad::Violation(_))))
        };
        if !fails(&tree.current()) {
            return;
        }
        while tree.simplify() {
            loop {
                let c = tree.current();
                if fails(&c) {
                    isolate::begin(part, index, || {
                        serde_json::to_string(&c).unwrap()
                    });
                    break;
                }
                if !tree.complicate() {
                    return;
                }
            }
        }
    }

    /// Runs the whole check in a child process; it is given a report.
    pub fn isolated(id: &str, root: &Path, run: impl Fn(Report)) -> ! {
        let replay = std::env::args()
            .position(|a| a == "--replay")
            .and_then(|p| std::env::args().nth(p + 1));
        let fresh = || {
            let mut r = Report::new(id, root);
            if let Some(p) = &replay {
                r.load_replay(p);
            }
            r
        };
        let mut report = fresh();
        let Some(crash) = isolate::supervise(|| run(fresh())) else {
            std::process::exit(2)
        };
        let mut case = crash.case.clone();
        if replay.is_none() && crash.what.contains("signal") {
            let found = isolate::smaller(Duration::from_secs(60), || {
                let mut r = fresh();
                r.shrink = Some((crash.part.clone(), crash.index));
                run(r);
            });
            if found != Value::Null {
                case = found;
            }
        }
        report.evaluations = crash.evaluations;
        report.rule = vec!["cut short by a crash".into()];
        report.samples = vec![case.clone()];
        report.fail(&crash.part, case, Bad::Violation(crash.what))
    }

    /// One case which isn't generated by a strategy (enumerations, stress
    /// rounds).
    pub fn one<C: Serialize + Clone>(
        &mut self,
        part: &str,
        case: C,
        f: impl FnOnce(&C) -> Res,
    ) {
        if self.replay.as_ref().map(|(p, _)| p != part).unwrap_or(false) {
            return;
        }
        if self.shrink.is_some() {
            return;
        }
        isolate::begin(part, 0, || serde_json::to_string(&case).unwrap());
        match f(&case) {
            Ok(pass) => self.count(part, &case, pass),
            Err(b) => {
                self.fail(part, serde_json::to_value(&case).unwrap(), b)
            }
        }
    }

    fn count<C: Serialize>(&mut self, part: &str, case: &C, pass: Pass) {
        self.evaluations += 1;
        let e = self.parts.entry(part.to_string()).or_default();
        e.0 += 1;
        for t in pass.tags {
            *self.tags.entry(t.to_string()).or_default() += 1;
        }
        if pass.nontrivial {
            let s = serde_json::to_string(case).unwrap();
            let new = self.nontrivial.insert(fnv(&format!("{part}{s}")));
            if new {
                e.1 += 1;
                if e.1 <= 2 || (e.1 == 20 && self.samples.len() < 12) {
                    let case = if s.len() > 1500 {
                        let mut n = 1500;
                        while !s.is_char_boundary(n) {
                            n -= 1;
                        }
                        json!(format!("{}...", &s[..n]))
                    } else {
                        serde_json::to_value(case).unwrap()
                    };
                    self.samples.push(json!({"part": part, "case": case}));
                }
            }
        }
    }

    /// Many uniform cases counted at once (exhaustive enumerations, stress).
    pub fn bulk(&mut self, part: &str, evaluations: u64, nontrivial: u64) {
        self.evaluations += evaluations;
        let e = self.parts.entry(part.to_string()).or_default();
        e.0 += evaluations;
        e.1 += nontrivial;
        self.nontrivial_enumerated += nontrivial;
    }

    pub fn sample(&mut self, part: &str, v: Value) {
        self.samples.push(json!({"part": part, "case": v}));
    }

    pub fn exhaustive(&mut self) {
        self.exhaustive = true;
    }

    fn fail(&mut self, part: &str, case: Value, bad: Bad) -> ! {
        match bad {
            Bad::Harness(e) => {
                println!("HARNESS ERROR in {}/{part}: {}", self.id, clip(&e));
                std::process::exit(2)
            }
            Bad::Violation(msg) => {
                let dir = self.root.join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let path = dir.join(format!(
                    "{}-{}-{}.json",
                    self.id,
                    part.replace(' ', "-"),
                    self.seed
                ));
                let v = json!({"property": self.id, "part": part,
                    "seed": self.seed, "reason": msg, "case": case});
                let _ = std::fs::write(
                    &path,
                    serde_json::to_string_pretty(&v).unwrap(),
                );
                self.write(1);
                println!("{}/{part}: {}", self.id, clip(&msg));
                println!(
                    "VIOLATION property={} replay={}",
                    self.id,
                    path.display()
                );
                std::process::exit(1)
            }
        }
    }

    pub fn finish(&mut self) {
        if self.replay.is_some() || self.shrink.is_some() {
            return;
        }
        self.write(0);
        println!(
            "{}: held on {} cases, {} distinct non-trivial, {:.1}s",
            self.id,
            self.evaluations,
            self.nontrivial.len() as u64 + self.nontrivial_enumerated,
            self.start.elapsed().as_secs_f64()
        );
    }

    fn write(&mut self, violations: u64) {
        if self.replay.is_some() {
            return;
        }
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.json", self.id));
        let mut evaluations = self.evaluations;
        let mut nontrivial = self.nontrivial.len() as u64
            + self.nontrivial_enumerated;
        let mut samples = self.samples.clone();
        let mut rule = self.rule.join(" ");
        let mut parts = serde_json::Map::new();
        let mut wall = self.start.elapsed().as_secs_f64();
        let mut assumptions = self.assumptions.clone();
        let mut tags: BTreeMap<String, u64> = self.tags.clone();
        let mut exhaustive = self.exhaustive;
        // A check made of two programs: the second one adds to the first one.
        if std::env::var("RV_MERGE").is_ok() {
            if let Some(old) = std::fs::read_to_string(&path)
                .ok()
                .and_then(|s| serde_json::from_str::<Value>(&s).ok())
            {
                let c = &old["coverage"];
                evaluations += c["evaluations"].as_u64().unwrap_or(0);
                nontrivial += c["distinct_nontrivial"].as_u64().unwrap_or(0);
                let mut s =
                    c["samples"].as_array().cloned().unwrap_or_default();
                s.extend(samples);
                samples = s;
                rule = format!("{} {rule}", c["rule"].as_str().unwrap_or(""));
                if let Some(p) = c["parts"].as_object() {
                    parts = p.clone();
                }
                if let Some(t) = c["exercised"].as_object() {
                    for (k, v) in t {
                        *tags.entry(k.clone()).or_default() +=
                            v.as_u64().unwrap_or(0);
                    }
                }
                wall += old["wall_s"].as_f64().unwrap_or(0.);
                for a in old["assumptions"].as_array().into_iter().flatten() {
                    assumptions.push(a.as_str().unwrap_or("").to_string());
                }
                exhaustive = exhaustive && c["exhaustive"] == json!(true);
            }
        }
        for (k, (n, d)) in &self.parts {
            parts.insert(k.clone(), json!({"cases": n, "nontrivial": d}));
        }
        let mut cov = json!({
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": rule,
            "samples": samples,
            "parts": parts,
            "exercised": tags,
        });
        if exhaustive {
            cov["exhaustive"] = json!(true);
        }
        for (k, v) in &self.extra {
            cov[k] = v.clone();
        }
        let v = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": wall,
            "violations": violations,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap())
            .expect("evidence file");
    }
}

fn clip(s: &str) -> String {
    let mut n = s.len().min(2000);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    // one line of text
    s[..n]
        .chars()
        .flat_map(|c| {
            let odd = c.is_control() || c == '\u{fffd}';
            if odd { c.escape_default().collect::<Vec<_>>() } else { vec![c] }
        })
        .collect()
}
