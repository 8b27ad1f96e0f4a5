//! Check framework: sub-checks made of a proptest strategy and an oracle, run on a fixed number of
//! shards with seeds derived from `VERIF_SEED`; shrinking, replay files, evidence.

use std::{
    any::Any,
    cell::RefCell,
    collections::{hash_map::DefaultHasher, BTreeMap, HashSet},
    fmt::{Debug, Write as _},
    hash::{Hash, Hasher},
    panic::{self, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use proptest::{
    strategy::Strategy,
    test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};

/// Number of shards; fixed so that a run is a function of the code and the seed only.
const SHARDS: u64 = 8;
/// Seconds one case may take before the run is abandoned with an error exit (never a violation).
const CASE_LIMIT: u64 = 120;
/// Seconds one whole check may take before it is abandoned with an error exit.
const TOTAL_LIMIT: u64 = 870;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct RunCfg {
    pub tier: Tier,
    pub seed: u64,
    pub property: &'static str,
    /// Multiplier in percent for the number of cases (VERIF_CASES_PCT, for experiments).
    pub pct: u64,
}

/// Per-case coverage notes.
#[derive(Default)]
pub struct Cov {
    nontrivial: bool,
    labels: Vec<&'static str>,
}

impl Cov {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr $(,)?) => { if !$c { return Err(format!("not {}", stringify!($c))); } };
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr $(,)?) => { $crate::ensure_eq!($a, $b, "{}", stringify!($a)) };
    ($a:expr, $b:expr, $($t:tt)*) => {
        match (&$a, &$b) {
            (a, b) => {
                if *a != *b {
                    return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b));
                }
            }
        }
    };
}

pub struct SubOut {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    failure: Option<Failure>,
    exhaustive: bool,
}

struct Failure {
    message: String,
    input_yaml: String,
    input_debug: String,
}

type RunFn = Box<dyn Fn(&RunCfg, &'static str) -> SubOut>;
type ReplayFn = Box<dyn Fn(&str) -> Res>;

pub struct Sub {
    pub name: &'static str,
    pub rule: &'static str,
    run: RunFn,
    replay: ReplayFn,
}

/// A defect recorded in `known-findings` instead of being repaired: `probe` returns what fails while
/// the defect is there.
pub struct Known {
    pub sig: &'static str,
    pub probe: fn() -> Option<String>,
}

pub struct Property {
    pub id: &'static str,
    pub subs: Vec<Sub>,
    pub known: Vec<Known>,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = payload(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var_os("VERIF_SHOW_PANIC").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| (*s).to_owned())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".to_owned())
}

/// Run `f`, turning a panic into an error.
pub fn guarded<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => Err(PANIC
            .with(|s| s.borrow_mut().take())
            .unwrap_or_else(|| format!("panicked: {}", payload(&*p)))),
    }
}

/// Whether `f` panics (with the message).
pub fn panics<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    guarded(|| Ok(f()))
}

fn hash_of(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn seed_bytes(seed: u64, property: &str, check: &str, shard: u64) -> [u8; 32] {
    // splitmix64 over a hash of everything the run depends on
    let mut x = hash_of(&format!("{seed}/{property}/{check}/{shard}"));
    let mut out = [0; 32];
    for chunk in out.chunks_mut(8) {
        x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^= z >> 31;
        chunk.copy_from_slice(&z.to_le_bytes());
    }
    out
}

struct Shared {
    started: Instant,
    case_started: [AtomicU64; SHARDS as usize],
    done: AtomicBool,
    stop: AtomicBool,
}

fn now_ms(start: Instant) -> u64 {
    u64::try_from(start.elapsed().as_millis()).unwrap_or(u64::MAX) + 1
}

fn watchdog(shared: &Arc<Shared>, what: String) {
    let shared = Arc::clone(shared);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        if shared.done.load(Ordering::Relaxed) {
            return;
        }
        let now = now_ms(shared.started);
        for (i, c) in shared.case_started.iter().enumerate() {
            let t = c.load(Ordering::Relaxed);
            if t != 0 && now.saturating_sub(t) > CASE_LIMIT * 1000 {
                eprintln!("ERROR: {what}: a case on shard {i} ran over {CASE_LIMIT} s; inconclusive");
                std::process::exit(2);
            }
        }
    });
}

/// Generated sub-check.
pub fn sub<T, S, M, C>(name: &'static str, rule: &'static str, cases: u64, strategy: M, check: C) -> Sub
where
    T: Clone + Debug + Serialize + DeserializeOwned + 'static,
    S: Strategy<Value = T> + 'static,
    M: Fn() -> S + Send + Sync + Clone + 'static,
    C: Fn(&T, &mut Cov) -> Res + Send + Sync + Clone + 'static,
{
    let check2 = check.clone();
    Sub {
        name,
        rule,
        run: Box::new(move |cfg, name| run_generated(cfg, name, cases, &strategy, &check)),
        replay: Box::new(move |yaml| {
            let value: T = serde_yaml::from_str(yaml).map_err(|e| format!("REPLAY-FORMAT {e}"))?;
            guarded(|| check2(&value, &mut Cov::default()))
        }),
    }
}

/// Exhaustive sub-check over a finite list of cases.
pub fn all<T, M, C>(name: &'static str, rule: &'static str, cases: M, check: C) -> Sub
where
    T: Clone + Debug + Serialize + DeserializeOwned + 'static,
    M: Fn() -> Vec<T> + 'static,
    C: Fn(&T, &mut Cov) -> Res + Clone + 'static,
{
    let check2 = check.clone();
    Sub {
        name,
        rule,
        run: Box::new(move |_, _| {
            let mut out = SubOut {
                evaluations: 0,
                distinct: HashSet::new(),
                labels: BTreeMap::new(),
                samples: Vec::new(),
                failure: None,
                exhaustive: true,
            };
            for case in cases() {
                let mut cov = Cov::default();
                out.evaluations += 1;
                let res = guarded(|| check(&case, &mut cov));
                note(&mut out, &case, &cov);
                if let Err(message) = res {
                    out.failure = Some(Failure {
                        message,
                        input_yaml: serde_yaml::to_string(&case).unwrap_or_default(),
                        input_debug: format!("{case:?}"),
                    });
                    break;
                }
            }
            out
        }),
        replay: Box::new(move |yaml| {
            let value: T = serde_yaml::from_str(yaml).map_err(|e| format!("REPLAY-FORMAT {e}"))?;
            guarded(|| check2(&value, &mut Cov::default()))
        }),
    }
}

fn note<T: Debug>(out: &mut SubOut, case: &T, cov: &Cov) {
    for l in &cov.labels {
        *out.labels.entry(l).or_default() += 1;
    }
    if cov.nontrivial {
        let repr = format!("{case:?}");
        if out.distinct.insert(hash_of(&repr)) && out.samples.len() < 3 {
            out.samples.push(truncate(&repr, 600));
        }
    }
}

fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_owned();
    }
    let mut end = n;
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    format!("{}...", &s[..end])
}

fn run_generated<T, S, M, C>(cfg: &RunCfg, name: &'static str, cases: u64, strategy: &M, check: &C) -> SubOut
where
    T: Clone + Debug + Serialize + DeserializeOwned + 'static,
    S: Strategy<Value = T>,
    M: Fn() -> S + Send + Sync,
    C: Fn(&T, &mut Cov) -> Res + Send + Sync,
{
    let factor = match cfg.tier {
        Tier::Quick => 8,
        Tier::Thorough => 160,
    };
    let per_shard = (cases * factor * cfg.pct / 100).div_ceil(SHARDS).max(1);
    let shared = Arc::new(Shared {
        started: Instant::now(),
        case_started: Default::default(),
        done: AtomicBool::new(false),
        stop: AtomicBool::new(false),
    });
    watchdog(&shared, format!("{}/{name}", cfg.property));
    let outs: Mutex<Vec<(u64, SubOut)>> = Mutex::new(Vec::new());
    let crashed = AtomicBool::new(false);
    std::thread::scope(|scope| {
        for shard in 0..SHARDS {
            let shared = &shared;
            let outs = &outs;
            let crashed = &crashed;
            let builder = std::thread::Builder::new().stack_size(256 << 20);
            builder
                .spawn_scoped(scope, move || {
                    let res = panic::catch_unwind(AssertUnwindSafe(|| {
                        run_shard(cfg, name, shard, per_shard, strategy, check, shared)
                    }));
                    match res {
                        Ok(out) => outs.lock().unwrap().push((shard, out)),
                        Err(p) => {
                            let msg = PANIC.with(|s| s.borrow_mut().take());
                            eprintln!(
                                "ERROR: {}/{name}: harness failure on shard {shard}: {}",
                                cfg.property,
                                msg.unwrap_or_else(|| payload(&*p))
                            );
                            crashed.store(true, Ordering::Relaxed);
                        }
                    }
                })
                .expect("spawn");
        }
    });
    shared.done.store(true, Ordering::Relaxed);
    if crashed.load(Ordering::Relaxed) {
        std::process::exit(2);
    }
    let mut outs = outs.into_inner().unwrap();
    outs.sort_by_key(|(s, _)| *s);
    let mut total = SubOut {
        evaluations: 0,
        distinct: HashSet::new(),
        labels: BTreeMap::new(),
        samples: Vec::new(),
        failure: None,
        exhaustive: false,
    };
    for (_, out) in outs {
        total.evaluations += out.evaluations;
        total.distinct.extend(out.distinct);
        for (l, n) in out.labels {
            *total.labels.entry(l).or_default() += n;
        }
        for s in out.samples {
            if total.samples.len() < 3 {
                total.samples.push(s);
            }
        }
        if let Some(f) = out.failure {
            // the smallest failing input of all shards
            if total.failure.as_ref().is_none_or(|t| f.input_debug.len() < t.input_debug.len()) {
                total.failure = Some(f);
            }
        }
    }
    total
}

fn run_shard<T, S, M, C>(
    cfg: &RunCfg,
    name: &'static str,
    shard: u64,
    cases: u64,
    strategy: &M,
    check: &C,
    shared: &Shared,
) -> SubOut
where
    T: Clone + Debug + Serialize + DeserializeOwned,
    S: Strategy<Value = T>,
    M: Fn() -> S,
    C: Fn(&T, &mut Cov) -> Res,
{
    let config = Config {
        cases: u32::try_from(cases).unwrap(),
        failure_persistence: None,
        source_file: None,
        max_shrink_iters: 20_000,
        max_local_rejects: 1_000_000,
        max_global_rejects: 1_000_000,
        ..Config::default()
    };
    let rng = TestRng::from_seed(
        RngAlgorithm::ChaCha,
        &seed_bytes(cfg.seed, cfg.property, name, shard),
    );
    let mut runner = TestRunner::new_with_rng(config, rng);
    let out = RefCell::new(SubOut {
        evaluations: 0,
        distinct: HashSet::new(),
        labels: BTreeMap::new(),
        samples: Vec::new(),
        failure: None,
        exhaustive: false,
    });
    let failed = RefCell::new(false);
    let strategy = strategy();
    let slot = &shared.case_started[shard as usize];
    let result = runner.run(&strategy, |case| {
        if !*failed.borrow() && shared.stop.load(Ordering::Relaxed) {
            // another shard has found a failure; finish quickly
            return Ok(());
        }
        slot.store(now_ms(shared.started), Ordering::Relaxed);
        let mut cov = Cov::default();
        let res = guarded(|| check(&case, &mut cov));
        slot.store(0, Ordering::Relaxed);
        let counting = !*failed.borrow();
        if counting {
            let mut out = out.borrow_mut();
            out.evaluations += 1;
            note(&mut out, &case, &cov);
        }
        res.map_err(|message| {
            *failed.borrow_mut() = true;
            shared.stop.store(true, Ordering::Relaxed);
            TestCaseError::fail(message)
        })
    });
    let mut out = out.into_inner();
    match result {
        Ok(()) => {}
        Err(TestError::Fail(_, case)) => {
            // message of the shrunk case
            let message = match guarded(|| check(&case, &mut Cov::default())) {
                Err(m) => m,
                Ok(()) => "failed while searching but not when run again (flaky)".to_owned(),
            };
            out.failure = Some(Failure {
                message,
                input_yaml: serde_yaml::to_string(&case).unwrap_or_default(),
                input_debug: format!("{case:?}"),
            });
        }
        Err(TestError::Abort(reason)) => panic!("proptest aborted: {reason}"),
    }
    out
}

pub fn root() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).join("..")
}

fn json_str(s: &str) -> String {
    let mut out = String::with_capacity(s.len() + 2);
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    check: String,
    seed: u64,
    message: String,
    input_debug: String,
    input: String,
}

/// Lines of the known-findings file which concern `property` and are not fixed.
fn known_lines(property: &str) -> Vec<String> {
    std::fs::read_to_string(root().join("known-findings"))
        .unwrap_or_default()
        .lines()
        .filter(|l| l.starts_with("finding:") && l.contains(&format!("property={property} ")))
        .map(ToOwned::to_owned)
        .collect()
}

/// Run all sub-checks of a property; returns the exit code.
pub fn run_property(property: &Property, cfg: &RunCfg) -> i32 {
    let started = Instant::now();
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(TOTAL_LIMIT));
        eprintln!("ERROR: check ran over {TOTAL_LIMIT} s; inconclusive");
        std::process::exit(2);
    });
    let only = std::env::var("VERIF_ONLY").ok();
    let mut evaluations = 0;
    let mut distinct = 0;
    let mut details = String::new();
    let mut samples = String::new();
    let mut rules = String::new();
    let mut violations = 0;
    for sub in &property.subs {
        if only.as_deref().is_some_and(|o| !sub.name.contains(o)) {
            continue;
        }
        let t = Instant::now();
        let out = (sub.run)(cfg, sub.name);
        evaluations += out.evaluations;
        distinct += out.distinct.len();
        let secs = t.elapsed().as_secs_f64();
        println!(
            "{}/{}: {} cases, {} distinct non-trivial, {secs:.1} s {:?}",
            property.id,
            sub.name,
            out.evaluations,
            out.distinct.len(),
            out.labels
        );
        if !details.is_empty() {
            details.push_str(",\n   ");
            rules.push_str(" | ");
        }
        let _ = write!(rules, "{}: {}", sub.name, sub.rule);
        let labels: Vec<String> = out
            .labels
            .iter()
            .map(|(l, n)| format!("{}: {n}", json_str(l)))
            .collect();
        let _ = write!(
            details,
            "{{\"check\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"exhaustive\": {}, \"labels\": {{{}}}, \"wall_s\": {secs:.2}}}",
            json_str(sub.name),
            out.evaluations,
            out.distinct.len(),
            out.exhaustive,
            labels.join(", ")
        );
        for s in out.samples.iter().take(2) {
            if !samples.is_empty() {
                samples.push_str(",\n   ");
            }
            samples.push_str(&json_str(&format!("{}: {s}", sub.name)));
        }
        if let Some(f) = out.failure {
            violations += 1;
            let dir = root().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let file = dir.join(format!("{}-{}.yaml", property.id, sub.name.replace(|c: char| !c.is_ascii_alphanumeric(), "-")));
            let replay = Replay {
                property: property.id.to_owned(),
                check: sub.name.to_owned(),
                seed: cfg.seed,
                message: f.message.clone(),
                input_debug: f.input_debug.clone(),
                input: f.input_yaml,
            };
            std::fs::write(&file, serde_yaml::to_string(&replay).unwrap_or_default())
                .expect("write replay");
            println!("  {}", truncate(&f.message, 3000));
            println!("  input: {}", truncate(&f.input_debug, 3000));
            println!(
                "VIOLATION property={} replay={}",
                property.id,
                file.canonicalize().unwrap_or(file).display()
            );
        }
    }
    let listed = known_lines(property.id);
    for known in &property.known {
        if only.is_some() {
            continue;
        }
        let what = guarded(|| Ok((known.probe)())).unwrap_or_else(Some);
        if let Some(what) = what {
            let sig = format!("sig={} ", known.sig);
            if listed.iter().any(|l| l.contains(&sig)) {
                println!("KNOWN-FINDING: property={} {} {what}", property.id, known.sig);
            } else {
                violations += 1;
                let dir = root().join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let file = dir.join(format!("{}-{}.yaml", property.id, known.sig));
                let _ = std::fs::write(&file, format!("property: {}\nknown: {}\nmessage: {what:?}\n", property.id, known.sig));
                println!("VIOLATION property={} replay={}", property.id, file.display());
            }
        }
    }
    let assumptions: Vec<String> = property.assumptions.iter().map(|a| json_str(a)).collect();
    let evidence = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evaluations},\n  \"distinct_nontrivial\": {distinct},\n  \"rule\": {},\n  \"samples\": [{samples}],\n  \"checks\": [{details}]\n }},\n \"assumptions\": [{}],\n \"violations\": {violations},\n \"wall_s\": {:.2}\n}}\n",
        json_str(property.id),
        json_str(match cfg.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" }),
        cfg.seed,
        json_str(&rules),
        assumptions.join(", "),
        started.elapsed().as_secs_f64()
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", property.id)), evidence).expect("write evidence");
    i32::from(violations > 0)
}

/// Re-run the input stored in a replay file; returns the exit code.
pub fn replay(properties: &[Property], file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let replay: Replay = serde_yaml::from_str(&text).expect("replay format");
    let property = properties
        .iter()
        .find(|p| p.id == replay.property)
        .expect("property");
    let sub = property
        .subs
        .iter()
        .find(|s| s.name == replay.check)
        .expect("check");
    match (sub.replay)(&replay.input) {
        Ok(()) => {
            println!("passes: {}/{}", replay.property, replay.check);
            0
        }
        Err(m) if m.starts_with("REPLAY-FORMAT") => {
            eprintln!("{m}");
            2
        }
        Err(m) => {
            println!("fails: {m}\ninput: {}", replay.input_debug);
            println!("VIOLATION property={} replay={file}", replay.property);
            1
        }
    }
}
