//! Drives one property: committed regression inputs, a systematic small universe, then random
//! generation and shrinking through proptest, in eight shards that depend only on the seed.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::Hasher;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

use crate::exec::{CPU_SECONDS, Bins, Exec, Fail, Mode, Profile, R};
use crate::gen::Gen;

pub const SHARDS: u64 = 8;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a case that upheld the property was like.
#[derive(Clone, Debug, Default)]
pub struct Verdict {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}
impl Verdict {
    pub fn new(nontrivial: bool) -> Verdict {
        Verdict { nontrivial, labels: Vec::new() }
    }
    pub fn label(mut self, on: bool, l: &'static str) -> Verdict {
        if on {
            self.labels.push(l);
        }
        self
    }
}

pub trait Property: Sync + Send {
    type Case: Clone + Debug + PartialEq + Serialize + DeserializeOwned + Send + Sync + 'static;
    const ID: &'static str;
    /// How cases are made, and what makes one non-trivial.
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    /// Random cases of the quick tier (all shards together).
    const QUICK: u64;
    /// How many times as many cases the thorough tier generates.
    const FACTOR: u64 = 20;
    /// Never uses the batch servers.
    const PROCESS_ONLY: bool = false;

    fn gen(&self, g: &mut Gen) -> Self::Case;
    /// Simpler variants of a case, simplest first.
    fn shrink(&self, c: &Self::Case) -> Vec<Self::Case>;
    fn check(&self, c: &Self::Case, x: &mut Exec) -> R<Verdict>;
    /// Cases that are enumerated rather than drawn.
    fn systematic(&self, _tier: Tier) -> Box<dyn Iterator<Item = Self::Case>> {
        Box::new(std::iter::empty())
    }
}

pub struct Setup {
    pub root: PathBuf,
    pub bins: Bins,
    pub tier: Tier,
    pub seed: u64,
    pub scale: f64,
    pub notes: Vec<String>,
}

struct CaseStrategy<'a, P: Property>(&'a P);
impl<P: Property> Debug for CaseStrategy<'_, P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "CaseStrategy({})", P::ID)
    }
}
struct CaseTree<'a, P: Property> {
    prop: &'a P,
    best: P::Case,
    cur: P::Case,
    candidates: Vec<P::Case>,
    next: usize,
}
impl<'a, P: Property> Strategy for CaseStrategy<'a, P> {
    type Tree = CaseTree<'a, P>;
    type Value = P::Case;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let c = self.0.gen(&mut Gen::new(runner.rng()));
        Ok(CaseTree { prop: self.0, best: c.clone(), cur: c, candidates: Vec::new(), next: 0 })
    }
}
impl<P: Property> ValueTree for CaseTree<'_, P> {
    type Value = P::Case;
    fn current(&self) -> P::Case {
        self.cur.clone()
    }
    /// Called while `cur` fails: make it the best and try the first simpler variant.
    fn simplify(&mut self) -> bool {
        self.best = self.cur.clone();
        self.candidates = self.prop.shrink(&self.best);
        self.candidates.retain(|c| *c != self.best);
        self.next = 0;
        self.advance()
    }
    /// Called when the variant passed: try the next one.
    fn complicate(&mut self) -> bool {
        self.advance()
    }
}
impl<P: Property> CaseTree<'_, P> {
    fn advance(&mut self) -> bool {
        if let Some(c) = self.candidates.get(self.next) {
            self.next += 1;
            self.cur = c.clone();
            true
        } else {
            self.cur = self.best.clone();
            false
        }
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    random: u64,
    systematic: u64,
    regressions: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    in_dev: u64,
    in_release: u64,
    in_batch: u64,
    unconfirmed: Vec<String>,
    unreproduced: Vec<String>,
    invocations: u64,
    processes: u64,
    batch_deaths: u64,
    cut_short: bool,
}

struct Finding<C> {
    case: C,
    message: String,
    commands: Vec<String>,
    profile: Profile,
    origin: String,
}

/// How often a case that failed is run again, and how many cases may fail without doing so again
/// before that is a violation.
const AGAIN: u32 = 30;
const UNREPRODUCED: u32 = 3;

struct Shared<C> {
    stop: AtomicBool,
    unreproduced: AtomicU32,
    found: Mutex<Vec<Finding<C>>>,
    error: Mutex<Option<String>>,
    /// The first case that failed, as it was generated: the replay file and what is printed.
    first: Arc<Mutex<Option<Unshrunk>>>,
    root: PathBuf,
    seed: u64,
    start: Instant,
    limit: Duration,
}

struct Unshrunk {
    path: PathBuf,
    replay: Value,
    id: &'static str,
    message: String,
    since: Instant,
}

/// Simplifying a case is a convenience. Should it take more memory or time than it may, the case
/// is reported the way it was generated.
fn watch(first: Arc<Mutex<Option<Unshrunk>>>) {
    let bytes = |s: &str| -> u64 { s.split_whitespace().nth(1).and_then(|n| n.parse::<u64>().ok()).unwrap_or(0) * 4096 };
    loop {
        std::thread::sleep(Duration::from_millis(100));
        let Ok(guard) = first.lock() else { return };
        let Some(f) = guard.as_ref() else { continue };
        let resident = std::fs::read_to_string("/proc/self/statm").map(|s| bytes(&s)).unwrap_or(0);
        if resident > shrink_bytes() || f.since.elapsed() > Duration::from_secs(4 * shrink_seconds() + 120) {
            write_replay(&f.path, &f.replay);
            println!("property {} is violated (case not simplified): {}", f.id, f.message);
            println!("VIOLATION property={} replay={}", f.id, f.path.display());
            std::process::exit(1);
        }
    }
}

fn write_replay(path: &Path, replay: &Value) {
    if let Some(dir) = path.parent() {
        let _ = std::fs::create_dir_all(dir);
    }
    let _ = std::fs::write(path, serde_json::to_string_pretty(replay).unwrap() + "\n");
}

fn replay_of<C: Serialize>(id: &str, root: &Path, seed: u64, f: &Finding<C>) -> (PathBuf, Value) {
    let path = root.join("replays").join(format!("{}-{:016x}.json", id, case_hash(&f.case)));
    let value = json!({
        "property": id,
        "case": f.case,
        "message": f.message,
        "command_lines": f.commands,
        "build": if f.profile == Profile::Dev { "dev" } else { "release" },
        "origin": f.origin,
        "seed": seed,
        "replay_with": format!("./check.sh --replay replays/{}", path.file_name().unwrap().to_string_lossy()),
    });
    (path, value)
}

struct Worker<'a, P: Property> {
    prop: &'a P,
    x: Exec,
    stats: Stats,
    shared: &'a Shared<P::Case>,
    /// Once a case has failed, the build it failed in and the attempts worth making.
    failing: Option<(Profile, u32)>,
    use_batch: bool,
    last: Option<(String, Vec<String>)>,
}

fn case_hash<C: Serialize>(c: &C) -> u64 {
    let bytes = serde_json::to_vec(c).unwrap();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(&bytes);
    h.finish()
}

impl<P: Property> Worker<'_, P> {
    fn once(&mut self, c: &P::Case, mode: Mode) -> R<Verdict> {
        self.x.mode = mode;
        self.x.trace.clear();
        self.x.cpu_seconds = CPU_SECONDS;
        let prop = self.prop;
        let x = &mut self.x;
        match catch_unwind(AssertUnwindSafe(|| prop.check(c, x))) {
            Ok(r) => r,
            Err(p) => {
                let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err(Fail::Harness(format!("the check itself panicked on {:?}: {}", c, msg)))
            }
        }
    }

    /// Judges a case; `Ok(false)`: the property is violated (confirmed on a regular build).
    fn judge(&mut self, c: &P::Case, index: u64) -> Result<bool, String> {
        if let Some((profile, attempts)) = self.failing {
            // shrinking
            for _ in 0..attempts {
                match self.once(c, Mode::Proc(profile)) {
                    Ok(_) => {}
                    Err(Fail::Harness(e)) => return Err(e),
                    Err(Fail::Violation(m)) => {
                        self.last = Some((m, self.x.trace.clone()));
                        return Ok(false);
                    }
                }
            }
            return Ok(true);
        }
        let mode = match index % 64 {
            0 => Mode::Proc(Profile::Dev),
            32 => Mode::Proc(Profile::Release),
            _ if self.use_batch => Mode::Batch,
            i if i % 2 == 0 => Mode::Proc(Profile::Release),
            _ => Mode::Proc(Profile::Dev),
        };
        match self.once(c, mode) {
            Ok(v) => {
                self.record(c, index, mode, v);
                Ok(true)
            }
            Err(Fail::Harness(e)) => Err(e),
            Err(Fail::Violation(m)) => {
                let mut plan: Vec<(Profile, u32)> = match mode {
                    Mode::Proc(p) => {
                        // fresh processes already; still, something around them may have disturbed
                        // this one run, so only what happens again counts at once
                        self.last = Some((m.clone(), self.x.trace.clone()));
                        let start = Instant::now();
                        for attempt in 0..AGAIN {
                            if attempt > 0 && start.elapsed() > Duration::from_secs(60) {
                                break;
                            }
                            match self.once(c, Mode::Proc(p)) {
                                Ok(_) => {}
                                Err(Fail::Harness(e)) => return Err(e),
                                Err(Fail::Violation(m)) => {
                                    self.last = Some((m, self.x.trace.clone()));
                                    self.failing = Some((p, if attempt == 0 { 3 } else { 12 }));
                                    self.note_first(c, p);
                                    return Ok(false);
                                }
                            }
                        }
                        self.stats.unreproduced.push(format!("{:?}: {}", c, m));
                        if self.shared.unreproduced.fetch_add(1, Ordering::Relaxed) + 1 >= UNREPRODUCED {
                            // it happens, if rarely: there is no point in simplifying the case
                            self.failing = Some((p, 0));
                            self.note_first(c, p);
                            return Ok(false);
                        }
                        self.stats.evaluations += 1;
                        return Ok(true);
                    }
                    Mode::Batch => vec![(Profile::Dev, 1), (Profile::Release, 1), (Profile::Dev, 12), (Profile::Release, 4)],
                };
                for (profile, attempts) in plan.drain(..) {
                    for _ in 0..attempts {
                        match self.once(c, Mode::Proc(profile)) {
                            Ok(_) => {}
                            Err(Fail::Harness(e)) => return Err(e),
                            Err(Fail::Violation(m)) => {
                                self.last = Some((m, self.x.trace.clone()));
                                self.failing = Some((profile, if attempts == 1 { 1 } else { 12 }));
                                self.note_first(c, profile);
                                return Ok(false);
                            }
                        }
                    }
                }
                // an artefact of many command lines sharing one process: do without
                self.stats.unconfirmed.push(format!("{:?}: {}", c, m));
                if self.stats.unconfirmed.len() >= 3 {
                    self.use_batch = false;
                }
                self.stats.evaluations += 1;
                Ok(true)
            }
        }
    }

    fn record(&mut self, c: &P::Case, index: u64, mode: Mode, v: Verdict) {
        self.stats.evaluations += 1;
        match mode {
            Mode::Batch => self.stats.in_batch += 1,
            Mode::Proc(Profile::Dev) => self.stats.in_dev += 1,
            Mode::Proc(Profile::Release) => self.stats.in_release += 1,
        }
        for l in v.labels {
            *self.stats.labels.entry(l).or_default() += 1;
        }
        if v.nontrivial {
            let fresh = self.stats.distinct.insert(case_hash(c));
            if fresh && self.stats.samples.len() < 4 && (index % 37 == 5 || index > 200) {
                let mut case = serde_json::to_value(c).unwrap();
                if case.to_string().len() > 3000 {
                    case = Value::String(format!("{}...", &case.to_string().chars().take(3000).collect::<String>()));
                }
                let commands: Vec<String> = self.x.trace.iter().take(8).map(|t| t.chars().take(600).collect()).collect();
                self.stats.samples.push(json!({"case": case, "command_lines": commands}));
            }
        }
    }

    fn expired(&mut self) -> bool {
        if self.shared.stop.load(Ordering::Relaxed) {
            return true;
        }
        if self.shared.start.elapsed() > self.shared.limit {
            self.stats.cut_short = true;
            return true;
        }
        false
    }

    fn report(&mut self, case: P::Case, origin: &str) {
        let (message, commands) = self.last.clone().unwrap_or_default();
        let profile = self.failing.map(|f| f.0).unwrap_or(Profile::Dev);
        self.shared.found.lock().unwrap().push(Finding { case, message, commands, profile, origin: origin.into() });
        self.shared.stop.store(true, Ordering::Relaxed);
    }

    fn note_first(&self, c: &P::Case, profile: Profile) {
        let mut first = self.shared.first.lock().unwrap();
        if first.is_none() {
            let (message, commands) = self.last.clone().unwrap_or_default();
            let f = Finding { case: c.clone(), message, commands, profile, origin: "as generated".into() };
            let (path, replay) = replay_of(P::ID, &self.shared.root, self.shared.seed, &f);
            *first = Some(Unshrunk { path, replay, id: P::ID, message: f.message, since: Instant::now() });
        }
    }

    fn error(&mut self, e: String) {
        self.shared.error.lock().unwrap().get_or_insert(e);
        self.shared.stop.store(true, Ordering::Relaxed);
    }

    /// Shrinks a failing case that did not come from proptest's own run.
    fn shrink_here(&mut self, c: P::Case) -> P::Case {
        let start = Instant::now();
        let mut best = c;
        let mut best_last = self.last.clone();
        'outer: loop {
            for cand in self.prop.shrink(&best) {
                if start.elapsed() > Duration::from_secs(shrink_seconds()) {
                    break 'outer;
                }
                // a candidate that cannot be judged is not taken
                if cand != best && !self.judge(&cand, 0).unwrap_or(true) {
                    best = cand;
                    best_last = self.last.clone();
                    continue 'outer;
                }
            }
            break;
        }
        self.last = best_last;
        best
    }
}

/// How much memory the harness may use by then (RIPVERIF_SHRINK_MB).
fn shrink_bytes() -> u64 {
    std::env::var("RIPVERIF_SHRINK_MB").ok().and_then(|s| s.parse().ok()).unwrap_or(9000) << 20
}

/// How long a failing case may be simplified (RIPVERIF_SHRINK_SECONDS; for trials of the checks).
fn shrink_seconds() -> u64 {
    std::env::var("RIPVERIF_SHRINK_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(40)
}

fn seed_bytes(seed: u64, id: &str, shard: u64) -> [u8; 32] {
    // splitmix64 over seed, property and shard
    let mut s = seed ^ 0x9E37_79B9_7F4A_7C15;
    for b in id.bytes() {
        s = s.wrapping_mul(0x100_0000_01B3) ^ b as u64;
    }
    s = s.wrapping_add(shard.wrapping_mul(0xD1B5_4A32_D192_ED03));
    let mut out = [0u8; 32];
    for chunk in out.chunks_mut(8) {
        s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = s;
        z = (z ^ z >> 30).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ z >> 27).wrapping_mul(0x94D0_49BB_1331_11EB);
        chunk.copy_from_slice(&(z ^ z >> 31).to_le_bytes());
    }
    out
}

fn load_regressions<C: DeserializeOwned>(root: &Path, id: &str) -> Result<Vec<C>, String> {
    let path = root.join("regress").join(format!("{}.jsonl", id));
    let Ok(text) = std::fs::read_to_string(&path) else { return Ok(Vec::new()) };
    text.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(l).map_err(|e| format!("{}: {}: {}", path.display(), e, l)))
        .collect()
}

fn shard_main<P: Property>(prop: &P, setup: &Setup, shard: u64, shared: &Shared<P::Case>, regress: &[P::Case]) -> Stats {
    let use_batch = !P::PROCESS_ONLY && setup.bins.batch.is_some();
    let x = match Exec::new(&setup.bins, Mode::Batch) {
        Ok(x) => x,
        Err(e) => {
            shared.error.lock().unwrap().get_or_insert(format!("{:?}", e));
            return Stats::default();
        }
    };
    let mut w = Worker { prop, x, stats: Stats::default(), shared, failing: None, use_batch, last: None };

    // 1. committed regressions (on the development build), 2. systematic cases
    for (i, c) in regress.iter().enumerate() {
        if i as u64 % SHARDS != shard || w.expired() {
            continue;
        }
        match w.judge(c, 0) {
            Ok(true) => w.stats.regressions += 1,
            Ok(false) => {
                let c = w.shrink_here(c.clone());
                w.report(c, "regression");
                return finish(w);
            }
            Err(e) => {
                w.error(e);
                return finish(w);
            }
        }
    }
    // without batch servers every command line costs a process: thin out
    let thin: u64 = if use_batch || P::PROCESS_ONLY { 1 } else { 16 };
    for (i, c) in prop.systematic(setup.tier).enumerate() {
        let i = i as u64;
        if i % SHARDS != shard {
            continue;
        }
        let n = i / SHARDS;
        if n % thin != 0 {
            continue;
        }
        if w.expired() {
            break;
        }
        match w.judge(&c, n / thin) {
            Ok(true) => w.stats.systematic += 1,
            Ok(false) => {
                let c = w.shrink_here(c);
                w.report(c, "systematic");
                return finish(w);
            }
            Err(e) => {
                w.error(e);
                return finish(w);
            }
        }
    }

    // 3. random cases
    let mut total = P::QUICK;
    if setup.tier == Tier::Thorough {
        total *= P::FACTOR;
    }
    total = ((total as f64 * setup.scale) as u64 / thin).max(64);
    let per_shard = (total / SHARDS).max(1);
    let config = Config {
        cases: per_shard as u32,
        failure_persistence: None,
        max_shrink_iters: 20_000,
        max_shrink_time: (shrink_seconds() * 1000) as u32,
        source_file: None,
        test_name: None,
        verbose: 0,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(setup.seed, P::ID, shard));
    let mut runner = TestRunner::new_with_rng(config, rng);
    let cell = RefCell::new(w);
    let index = RefCell::new(0u64);
    let result = runner.run(&CaseStrategy(prop), |c| {
        let mut w = cell.borrow_mut();
        if w.failing.is_none() && w.expired() {
            return Ok(());
        }
        let i = *index.borrow();
        *index.borrow_mut() += 1;
        // a shard that lost its batch servers continues with a sixteenth of its cases
        if !w.use_batch && use_batch && i % 16 != 0 {
            return Ok(());
        }
        match w.judge(&c, i) {
            Ok(true) => {
                if w.failing.is_none() {
                    w.stats.random += 1;
                }
                Ok(())
            }
            Ok(false) => Err(TestCaseError::fail("violated")),
            Err(e) => {
                w.error(e);
                Ok(())
            }
        }
    });
    let mut w = cell.into_inner();
    if let Err(TestError::Fail(_, case)) = result {
        // leave message and commands of exactly this case behind
        let before = w.last.clone();
        match w.judge(&case, 0) {
            Ok(false) => {}
            Ok(true) => w.last = before,
            Err(e) => w.error(e),
        }
        w.report(case, "random");
    } else if let Err(TestError::Abort(r)) = result {
        w.error(format!("proptest gave up: {}", r));
    }
    finish(w)
}

fn finish<P: Property>(mut w: Worker<P>) -> Stats {
    w.stats.invocations = w.x.invocations;
    w.stats.processes = w.x.processes;
    w.stats.batch_deaths = w.x.batch_deaths;
    std::mem::take(&mut w.stats)
}

/// Runs the whole check of a property; the result is the exit status.
pub fn run<P: Property>(prop: &P, setup: &Setup) -> i32 {
    let start = Instant::now();
    let regress: Vec<P::Case> = match load_regressions(&setup.root, P::ID) {
        Ok(r) => r,
        Err(e) => {
            println!("ERROR property={} {}", P::ID, e);
            return 2;
        }
    };
    let limit = match setup.tier {
        Tier::Quick => Duration::from_secs(420),
        Tier::Thorough => Duration::from_secs(4 * 3600),
    };
    let first = Arc::new(Mutex::new(None));
    std::thread::spawn({
        let first = first.clone();
        move || watch(first)
    });
    let shared = Shared { first: first.clone(), root: setup.root.clone(), seed: setup.seed, stop: AtomicBool::new(false), unreproduced: AtomicU32::new(0), found: Mutex::new(Vec::new()), error: Mutex::new(None), start, limit };
    let stats: Vec<Stats> = std::thread::scope(|s| {
        let handles: Vec<_> = (0..SHARDS)
            .map(|shard| {
                let shared = &shared;
                let regress = &regress;
                s.spawn(move || shard_main(prop, setup, shard, shared, regress))
            })
            .collect();
        handles.into_iter().map(|h| h.join().expect("shard")).collect()
    });

    let mut all = Stats::default();
    for s in stats {
        all.evaluations += s.evaluations;
        all.random += s.random;
        all.systematic += s.systematic;
        all.regressions += s.regressions;
        all.distinct.extend(s.distinct);
        for (l, n) in s.labels {
            *all.labels.entry(l).or_default() += n;
        }
        if all.samples.len() < 16 {
            all.samples.extend(s.samples);
        }
        all.in_dev += s.in_dev;
        all.in_release += s.in_release;
        all.in_batch += s.in_batch;
        all.unconfirmed.extend(s.unconfirmed);
        all.unreproduced.extend(s.unreproduced);
        all.invocations += s.invocations;
        all.processes += s.processes;
        all.batch_deaths += s.batch_deaths;
        all.cut_short |= s.cut_short;
    }

    *first.lock().unwrap() = None;
    let mut found = shared.found.into_inner().unwrap();
    found.sort_by_key(|f| serde_json::to_string(&f.case).unwrap().len());
    let error = shared.error.into_inner().unwrap();
    let wall = start.elapsed().as_secs_f64();

    let mut notes = setup.notes.clone();
    if all.cut_short {
        notes.push("the time limit was reached before all planned cases were generated".into());
    }
    for u in all.unconfirmed.iter().take(5) {
        notes.push(format!("seen in a batch server only, not counted as a violation: {}", crate::exec::clip(u)));
    }
    for u in all.unreproduced.iter().take(5) {
        notes.push(format!("seen once and not again in {} more runs, not counted as a violation by itself: {}", AGAIN, crate::exec::clip(u)));
    }
    let evidence = json!({
        "property": P::ID,
        "tier": if setup.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": setup.seed,
        "level": if matches!(P::ID, "C20" | "C26") { "fault_enumeration" } else { "exploration" },
        "coverage": {
            "evaluations": all.evaluations,
            "distinct_nontrivial": all.distinct.len(),
            "rule": P::RULE,
            "samples": all.samples,
            "random_cases": all.random,
            "systematic_cases": all.systematic,
            "regression_cases": all.regressions,
            "cases_by_runner": {"batch": all.in_batch, "dev_process": all.in_dev, "release_process": all.in_release},
            "command_lines_run": all.invocations,
            "processes_started": all.processes,
            "batch_server_deaths": all.batch_deaths,
            "unconfirmed_batch_failures": all.unconfirmed.len(),
            "unreproduced_failures": all.unreproduced.len(),
            "labels": all.labels,
            "notes": notes,
        },
        "assumptions": P::ASSUMPTIONS,
        "wall_s": wall,
        "violations": found.len(),
    });
    let dir = setup.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", P::ID)), serde_json::to_string_pretty(&evidence).unwrap() + "\n") {
        println!("ERROR property={} cannot write the evidence: {}", P::ID, e);
        return 2;
    }

    if let Some(f) = found.first() {
        let (path, replay) = replay_of(P::ID, &setup.root, setup.seed, f);
        write_replay(&path, &replay);
        println!("property {} is violated: {}", P::ID, f.message);
        for c in f.commands.iter().take(12) {
            println!("  $ {}", c);
        }
        println!("VIOLATION property={} replay={}", P::ID, path.display());
        return 1;
    }
    if let Some(e) = error {
        println!("ERROR property={} {}", P::ID, e);
        return 2;
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial; {} command lines, {} processes; {} regression, {} systematic, {} random) in {:.1} s",
        P::ID, all.evaluations, all.distinct.len(), all.invocations, all.processes, all.regressions, all.systematic, all.random, wall
    );
    0
}

/// Replays a case on the regular builds.
pub fn replay<P: Property>(prop: &P, setup: &Setup, case: &Value) -> i32 {
    let case: P::Case = match serde_json::from_value(case.clone()) {
        Ok(c) => c,
        Err(e) => {
            println!("ERROR cannot read the case: {}", e);
            return 2;
        }
    };
    let mut x = Exec::new(&setup.bins, Mode::Proc(Profile::Dev)).unwrap();
    for profile in [Profile::Dev, Profile::Release, Profile::Dev, Profile::Dev] {
        x.mode = Mode::Proc(profile);
        x.trace.clear();
        x.cpu_seconds = CPU_SECONDS;
        match prop.check(&case, &mut x) {
            Ok(_) => {}
            Err(Fail::Harness(e)) => {
                println!("ERROR {}", e);
                return 2;
            }
            Err(Fail::Violation(m)) => {
                for c in &x.trace {
                    println!("  $ {}", c);
                }
                println!("property {} is violated ({:?} build): {}", P::ID, profile, m);
                return 1;
            }
        }
    }
    println!("property {} holds for this case", P::ID);
    0
}

/// Generates and shrinks without running anything: the generators must not panic.
pub fn selftest<P: Property>(prop: &P, count: u64) -> i32 {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(12345, P::ID, 0));
    let mut runner = TestRunner::new_with_rng(Config::default(), rng);
    let mut shrunk = 0u64;
    for i in 0..count {
        let c = prop.gen(&mut Gen::new(runner.rng()));
        let text = serde_json::to_string(&c).unwrap();
        match serde_json::from_str::<P::Case>(&text) {
            Ok(d) if d == c => {}
            other => {
                println!("{}: does not survive serialisation: {} {:?}", P::ID, text, other);
                return 1;
            }
        }
        if i % 50 == 0 {
            // follow a random path of simpler variants to its end
            let mut c = c;
            for step in 0.. {
                let v = prop.shrink(&c);
                shrunk += v.len() as u64;
                if v.is_empty() {
                    break;
                }
                if step > 2000 {
                    println!("{}: shrinking does not end at {}", P::ID, text);
                    return 1;
                }
                let k = Gen::new(runner.rng()).below(v.len() as u64) as usize;
                c = v[k].clone();
            }
        }
    }
    let systematic = prop.systematic(Tier::Quick).count();
    println!("{}: {} generated, {} shrunk, {} systematic", P::ID, count, shrunk, systematic);
    0
}
