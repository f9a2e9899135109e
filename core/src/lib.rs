//! Engine shared by the funspace property checks: typed properties over
//! proptest strategies, sharded fixed-work runs, shrinking, replay files,
//! evidence files and known findings.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

pub mod data;
pub use data::{Data, DataKind};

pub const SHARDS: usize = 8;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
    /// No new case is started after this time (a loaded or slow machine).
    pub fn time(self) -> Duration {
        Duration::from_secs(self.pick(300, 720))
    }
}

/// What one executed case reports back.
#[derive(Default, Debug, Clone, Serialize, Deserialize)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: BTreeMap<String, u64>,
    /// largest error/tolerance ratio seen per comparison
    pub ratios: BTreeMap<String, f64>,
    pub comparisons: u64,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Fail {
    /// exact signature, used to match known findings
    pub sig: String,
    pub msg: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.into(),
        msg: msg.into(),
    })
}

impl Ctx {
    pub fn label(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_insert(0) += 1;
    }
    /// |got - want| <= tol, NaN fails
    pub fn close(&mut self, what: &str, idx: usize, got: f64, want: f64, tol: f64) -> Res {
        let err = (got - want).abs();
        self.within(what, idx, err, tol, || format!("got {got:e} want {want:e}"))
    }
    pub fn closec(
        &mut self,
        what: &str,
        idx: usize,
        got: num_complex::Complex<f64>,
        want: num_complex::Complex<f64>,
        tol: f64,
    ) -> Res {
        let err = (got - want).norm();
        self.within(what, idx, err, tol, || format!("got {got:e} want {want:e}"))
    }
    pub fn within(
        &mut self,
        what: &str,
        idx: usize,
        err: f64,
        tol: f64,
        detail: impl Fn() -> String,
    ) -> Res {
        self.comparisons += 1;
        let r = if err == 0.0 { 0.0 } else { err / tol };
        if let Some(e) = self.ratios.get_mut(what) {
            if !(r <= *e) {
                *e = r;
            }
        } else {
            self.ratios.insert(what.to_string(), r);
        }
        if err <= tol {
            Ok(())
        } else {
            fail(
                what,
                format!("{what}[{idx}]: {} |err| {err:e} > tol {tol:e}", detail()),
            )
        }
    }
    pub fn check(&mut self, what: &str, ok: bool, detail: impl Fn() -> String) -> Res {
        self.comparisons += 1;
        if ok {
            Ok(())
        } else {
            fail(what, format!("{what}: {}", detail()))
        }
    }
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Install a quiet panic hook that remembers the last message and place.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let full = format!("{msg} @ {loc}");
        if std::env::var("FSV_SHOW_PANICS").is_ok() {
            eprintln!("panic: {full}");
        }
        let _ = PANIC_MSG.try_with(|m| *m.borrow_mut() = full);
    }));
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|m| m.borrow().clone())
}

/// Run `f`; `Err(message)` when it panicked.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC_MSG.with(|m| m.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = last_panic();
        if !m.is_empty() {
            return m;
        }
        // panic raised on a rayon worker thread
        e.downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic on another thread".into())
    })
}

pub struct ShardSpec {
    pub tier: Tier,
    pub seed: u64,
    pub shard: usize,
    pub cases: usize,
}

fn runner_for(id: &str, seed: u64, shard: usize) -> TestRunner {
    let mut bytes = [0u8; 32];
    let mut h = 0xcbf29ce484222325u64;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    for (i, v) in [seed, h, shard as u64, 0x9e3779b97f4a7c15]
        .iter()
        .enumerate()
    {
        let z = data::mix(v.wrapping_add(i as u64 + 1));
        bytes[i * 8..i * 8 + 8].copy_from_slice(&z.to_le_bytes());
    }
    let cfg = Config {
        failure_persistence: None,
        ..Config::default()
    };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

/// One property: strategy + executable oracle.
pub struct Prop<C> {
    pub id: &'static str,
    pub rule: &'static str,
    /// total number of generated cases (quick, thorough)
    pub cases: (usize, usize),
    pub gen: fn(Tier, usize) -> BoxedStrategy<C>,
    pub exec: fn(&C, &mut Ctx) -> Res,
    pub assumptions: &'static [&'static str],
}

#[derive(Default, Serialize, Deserialize)]
pub struct ShardOut {
    pub evaluations: u64,
    pub comparisons: u64,
    pub hashes: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub ratios: BTreeMap<String, f64>,
    pub samples: Vec<Value>,
    pub failure: Option<(Value, Fail)>,
    /// known findings met: signature -> count
    pub known: BTreeMap<String, u64>,
}

impl ShardOut {
    /// account for one passed case
    pub fn absorb(&mut self, v: Value, ctx: Ctx, seen: &mut HashSet<u64>) {
        self.evaluations += 1;
        self.comparisons += ctx.comparisons;
        for (k, n) in ctx.labels {
            *self.labels.entry(k).or_insert(0) += n;
        }
        for (k, r) in ctx.ratios {
            let e = self.ratios.entry(k).or_insert(0.0);
            if r > *e {
                *e = r;
            }
        }
        if ctx.nontrivial {
            let h = data::hash_str(&v.to_string());
            if seen.insert(h) {
                self.hashes.push(h);
                if self.samples.len() < 2 {
                    self.samples.push(v);
                }
            }
        }
    }
}

pub type Exec<'a> = &'a dyn Fn(&Value) -> Result<Ctx, Fail>;

/// Object-safe view of a property.
pub trait DynProp: Sync {
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> &'static [&'static str];
    fn total_cases(&self, tier: Tier) -> usize;
    fn exec_value(&self, v: &Value) -> Result<Ctx, Fail>;
    fn run_shard(&self, spec: &ShardSpec, cur: &dyn Fn(u64, &Value), known: &Known) -> ShardOut;
    /// regenerate case `idx` of a shard and shrink it with `exec`
    fn shrink_case(&self, spec: &ShardSpec, idx: u64, exec: Exec, budget: usize)
        -> Option<(Value, Fail)>;
    /// generate a batch of cases
    fn batch(&self, spec: &ShardSpec) -> Vec<Value>;
}

fn shrink_tree<C: Serialize + Debug>(
    tree: &mut dyn ValueTree<Value = C>,
    first: Fail,
    exec: Exec,
    budget: usize,
) -> (Value, Fail) {
    let start = Instant::now();
    let mut best = (serde_json::to_value(tree.current()).unwrap(), first);
    let mut left = budget;
    if !tree.simplify() {
        return best;
    }
    while left > 0 && start.elapsed() < Duration::from_secs(90) {
        left -= 1;
        let v = serde_json::to_value(tree.current()).unwrap();
        match exec(&v) {
            Err(f) => {
                best = (v, f);
                if !tree.simplify() {
                    break;
                }
            }
            Ok(_) => {
                if !tree.complicate() {
                    break;
                }
            }
        }
    }
    best
}

impl<C: Serialize + DeserializeOwned + Debug + Clone + 'static> DynProp for Prop<C> {
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn assumptions(&self) -> &'static [&'static str] {
        self.assumptions
    }
    fn total_cases(&self, tier: Tier) -> usize {
        tier.pick(self.cases.0, self.cases.1)
    }
    fn exec_value(&self, v: &Value) -> Result<Ctx, Fail> {
        let c: C = match serde_json::from_value(v.clone()) {
            Ok(c) => c,
            Err(e) => panic!("cannot decode case for {}: {e}", self.id),
        };
        let mut ctx = Ctx::default();
        match no_panic(|| (self.exec)(&c, &mut ctx)) {
            Ok(Ok(())) => Ok(ctx),
            Ok(Err(f)) => Err(f),
            Err(p) => Err(Fail {
                sig: format!("panic: {p}"),
                msg: format!("unexpected panic: {p}"),
            }),
        }
    }
    fn run_shard(&self, spec: &ShardSpec, cur: &dyn Fn(u64, &Value), known: &Known) -> ShardOut {
        let start = Instant::now();
        let mut runner = runner_for(self.id, spec.seed, spec.shard);
        let strat = (self.gen)(spec.tier, spec.shard);
        let mut out = ShardOut::default();
        let mut seen = HashSet::new();
        for i in 0..spec.cases as u64 {
            if start.elapsed() > spec.tier.time() {
                out.labels.insert("stopped by the time limit".into(), 1);
                break;
            }
            let mut tree = strat.new_tree(&mut runner).expect("strategy");
            let v = serde_json::to_value(tree.current()).unwrap();
            cur(i, &v);
            match self.exec_value(&v) {
                Ok(ctx) => {
                    out.absorb(v, ctx, &mut seen);
                }
                Err(f) => {
                    out.evaluations += 1;
                    if let Some(k) = known.matching(self.id, &f.sig) {
                        *out.known.entry(k).or_insert(0) += 1;
                        continue;
                    }
                    let id = self.id;
                    let exec = |v: &Value| {
                        cur(i, v);
                        match self.exec_value(v) {
                            // do not shrink into a known finding
                            Err(f) if known.matching(id, &f.sig).is_some() => Ok(Ctx::default()),
                            r => r,
                        }
                    };
                    let b = shrink_tree(&mut tree, f, &exec, 4000);
                    out.failure = Some(b);
                    return out;
                }
            }
        }
        out
    }
    fn shrink_case(
        &self,
        spec: &ShardSpec,
        idx: u64,
        exec: Exec,
        budget: usize,
    ) -> Option<(Value, Fail)> {
        let mut runner = runner_for(self.id, spec.seed, spec.shard);
        let strat = (self.gen)(spec.tier, spec.shard);
        for i in 0..=idx {
            let mut tree = strat.new_tree(&mut runner).expect("strategy");
            if i == idx {
                let v = serde_json::to_value(tree.current()).unwrap();
                return match exec(&v) {
                    Err(f) => Some(shrink_tree(&mut tree, f, exec, budget)),
                    Ok(_) => None,
                };
            }
        }
        None
    }
    fn batch(&self, spec: &ShardSpec) -> Vec<Value> {
        let mut runner = runner_for(self.id, spec.seed, spec.shard);
        let strat = (self.gen)(spec.tier, spec.shard);
        (0..spec.cases)
            .map(|_| {
                let tree = strat.new_tree(&mut runner).expect("strategy");
                serde_json::to_value(tree.current()).unwrap()
            })
            .collect()
    }
}

// ---------------------------------------------------------------- known findings

/// Lines `known: property=<id> sig=<exact signature> :: <text>` and
/// `fixed: property=<id> <commit> <text>` (the latter suppress nothing).
#[derive(Default, Clone)]
pub struct Known {
    pub entries: Vec<(String, String, String)>,
}

impl Known {
    pub fn load(root: &Path) -> Known {
        let mut k = Known::default();
        if let Ok(s) = std::fs::read_to_string(root.join("known-findings.txt")) {
            for l in s.lines() {
                if let Some(rest) = l.strip_prefix("known: property=") {
                    if let Some((id, rest)) = rest.split_once(" sig=") {
                        if let Some((sig, text)) = rest.split_once(" :: ") {
                            k.entries.push((id.into(), sig.into(), text.into()));
                        }
                    }
                }
            }
        }
        k
    }
    pub fn matching(&self, id: &str, sig: &str) -> Option<String> {
        self.entries
            .iter()
            .find(|(i, s, _)| i == id && s == sig)
            .map(|(_, s, _)| s.clone())
    }
    pub fn text(&self, id: &str, sig: &str) -> String {
        self.entries
            .iter()
            .find(|(i, s, _)| i == id && s == sig)
            .map(|(_, _, t)| t.clone())
            .unwrap_or_default()
    }
}

// ---------------------------------------------------------------- command line

pub fn root() -> PathBuf {
    std::env::var("FSV_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn seed_from_env() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1)
}

pub fn tier_from_env(arg: Option<&str>) -> Tier {
    let t = arg
        .map(|s| s.to_string())
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    if t == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

pub struct Report {
    pub merged: ShardOut,
    pub wall: f64,
}

pub fn merge(outs: Vec<ShardOut>) -> ShardOut {
    let mut m = ShardOut::default();
    let mut seen = HashSet::new();
    for o in outs {
        m.evaluations += o.evaluations;
        m.comparisons += o.comparisons;
        for h in o.hashes {
            if seen.insert(h) {
                m.hashes.push(h);
            }
        }
        for (k, n) in o.labels {
            *m.labels.entry(k).or_insert(0) += n;
        }
        for (k, r) in o.ratios {
            let e = m.ratios.entry(k).or_insert(0.0);
            if r > *e {
                *e = r;
            }
        }
        if m.samples.len() < 6 {
            m.samples.extend(o.samples);
        }
        if m.failure.is_none() {
            m.failure = o.failure;
        }
        for (k, n) in o.known {
            *m.known.entry(k).or_insert(0) += n;
        }
    }
    m
}

pub fn write_replay(root: &Path, id: &str, case: &Value, f: &Fail, bin: &str) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let h = data::hash_str(&case.to_string());
    let p = dir.join(format!("{id}-{h:016x}.json"));
    let j = json!({
        "property": id,
        "case": case,
        "signature": f.sig,
        "message": f.msg,
        "replay_with": format!("{bin} replay {}", p.display()),
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap() + "\n");
    p
}

#[allow(clippy::too_many_arguments)]
pub fn write_evidence(
    root: &Path,
    id: &str,
    tier: Tier,
    seed: u64,
    rule: &str,
    assumptions: &[&str],
    m: &ShardOut,
    wall: f64,
    violations: u64,
    extra: Value,
) {
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut samples = m.samples.clone();
    if let Some((c, f)) = &m.failure {
        samples.insert(0, json!({"failing_case": c, "message": f.msg}));
    }
    let mut cov = json!({
        "evaluations": m.evaluations,
        "distinct_nontrivial": m.hashes.len(),
        "rule": rule,
        "samples": samples,
        "comparisons": m.comparisons,
        "class_counts": m.labels,
        "max_error_over_tolerance": m.ratios,
        "known_findings_met": m.known,
    });
    if let (Some(c), Some(e)) = (cov.as_object_mut(), extra.as_object()) {
        for (k, v) in e {
            c.insert(k.clone(), v.clone());
        }
    }
    let j = json!({
        "property": id,
        "tier": tier.name(),
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    let p = dir.join(format!("{id}.json"));
    if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap() + "\n") {
        eprintln!("cannot write evidence {}: {e}", p.display());
        std::process::exit(2);
    }
}

/// cases saved from earlier findings and sensitivity trials, one JSON per line
pub fn regressions(root: &Path, id: &str) -> Vec<Value> {
    let p = root.join("regressions").join(format!("{id}.jsonl"));
    std::fs::read_to_string(p)
        .map(|s| {
            s.lines()
                .filter(|l| !l.trim().is_empty())
                .filter_map(|l| serde_json::from_str(l).ok())
                .collect()
        })
        .unwrap_or_default()
}

fn is_crash(status: &std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    match status.signal() {
        // SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGSEGV: raised by the code under test
        Some(s) if [4, 5, 6, 7, 8, 11].contains(&s) => Some(s),
        _ => None,
    }
}

static BARE: AtomicBool = AtomicBool::new(false);

/// The same harness built without debug assertions and overflow checks, the
/// way users build a release (where `debug_assert!` does not refuse anything).
pub fn bare_exe() -> Option<PathBuf> {
    std::env::var_os("FSV_BARE").map(PathBuf::from).filter(|p| p.exists())
}
/// from now on cases in child processes use the build without assertions, or not
pub fn use_bare(on: bool) {
    BARE.store(on && bare_exe().is_some(), Ordering::Relaxed);
}
pub fn exe() -> PathBuf {
    match bare_exe() {
        Some(p) if BARE.load(Ordering::Relaxed) => p,
        _ => std::env::current_exe().unwrap(),
    }
}

/// A program under a cap of its address space, so that runaway allocation
/// ends this process and not the machine.
fn capped(exe: &Path) -> Command {
    let mut c = Command::new("/bin/sh");
    c.args(["-c", "ulimit -v 4000000 2>/dev/null; exec \"$0\" \"$@\""]);
    c.arg(exe);
    c
}

/// Whether every thread of a process of ours waits for something. A worker
/// computes, and talks to nobody: when all of its threads sleep at once and
/// go on doing so, they wait for each other. (A worker that merely gets no
/// processor is runnable, not asleep.)
fn asleep(pid: u32) -> bool {
    let Ok(tasks) = std::fs::read_dir(format!("/proc/{pid}/task")) else {
        return false;
    };
    let mut any = false;
    for t in tasks.flatten() {
        // pid (comm) state ...
        let stat = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        any = true;
        if stat.rsplit(')').next().and_then(|r| r.trim().chars().next()) != Some('S') {
            return false;
        }
    }
    any
}

/// Wait for a child, ending it when `limit` has passed or when it has been
/// seen asleep over and over for 10 s (then None).
fn wait_limited(c: &mut std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let start = Instant::now();
    let mut awake = Instant::now();
    loop {
        if let Some(s) = c.try_wait().expect("wait") {
            return Some(s);
        }
        if !asleep(c.id()) {
            awake = Instant::now();
        }
        if start.elapsed() > limit || awake.elapsed() > Duration::from_secs(10) {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(if start.elapsed().as_millis() < 50 { 1 } else { 20 }));
    }
}

/// Execute one case in a child process; a fatal signal is a failure, and so
/// is not coming to an end within `limit`.
pub fn exec_in_child(id: &str, v: &Value, tmp: &Path, limit: Duration) -> Result<Ctx, Fail> {
    exec_repeatedly(id, v, 1, tmp, limit)
}

/// The same, with up to `times` executions of the case one after the other
/// (what depends on the timing of threads need not show at once).
fn exec_repeatedly(id: &str, v: &Value, times: usize, tmp: &Path, limit: Duration) -> Result<Ctx, Fail> {
    let exe = exe();
    let f = tmp.join(format!("case-{}.json", std::process::id()));
    let (of, ef) = (tmp.join("one.out"), tmp.join("one.err"));
    std::fs::write(&f, v.to_string()).unwrap();
    let mut c = capped(&exe)
        .arg("one")
        .arg(id)
        .arg(&f)
        .arg(times.to_string())
        .env("RAYON_NUM_THREADS", "3")
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&of).unwrap())
        .stderr(std::fs::File::create(&ef).unwrap())
        .spawn()
        .expect("spawn");
    let status = match wait_limited(&mut c, limit) {
        Some(s) => s,
        None => return fail("timeout", format!("no result within {} s", limit.as_secs())),
    };
    if let Some(s) = is_crash(&status) {
        let err = std::fs::read(&ef).unwrap_or_default();
        let err = String::from_utf8_lossy(&err);
        let tail: String = err
            .lines()
            .filter(|l| !l.trim().is_empty())
            .take(3)
            .collect::<Vec<_>>()
            .join(" | ");
        return fail(format!("signal {s}"), format!("process died with signal {s}: {tail}"));
    }
    match status.code() {
        Some(0) => Ok(Ctx::default()),
        Some(1) => {
            let s = std::fs::read_to_string(&of).unwrap_or_default();
            serde_json::from_str::<Fail>(s.trim()).map_or_else(
                |_| fail("child", s.to_string()),
                Err,
            )
        }
        c => {
            eprintln!("child ended with {c:?}");
            std::process::exit(2)
        }
    }
}

/// Entry point of the serial harness binary.
pub fn main_serial(props: &[&dyn DynProp]) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> &dyn DynProp {
        for p in props {
            if p.id() == id {
                return *p;
            }
        }
        eprintln!("unknown property {id}");
        std::process::exit(2)
    };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check_serial(find(&args[2]), tier_from_env(args.get(3).map(|s| s.as_str()))),
        Some("worker") => worker(
            find(&args[2]),
            ShardSpec {
                tier: tier_from_env(Some(&args[3])),
                seed: args[4].parse().unwrap(),
                shard: args[5].parse().unwrap(),
                cases: args[6].parse().unwrap(),
            },
            Path::new(&args[7]),
        ),
        Some("one") => {
            let v: Value =
                serde_json::from_str(&std::fs::read_to_string(&args[3]).unwrap()).unwrap();
            let times: usize = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
            let begun = Instant::now();
            let mut code = 0;
            for k in 0..times {
                if k > 0 && begun.elapsed() > Duration::from_secs(20) {
                    break;
                }
                if let Err(f) = find(&args[2]).exec_value(&v) {
                    println!("{}", serde_json::to_string(&f).unwrap());
                    code = 1;
                    break;
                }
            }
            code
        }
        Some("replay") => {
            let j: Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let id = j["property"].as_str().unwrap();
            match find(id).exec_value(&j["case"]) {
                Ok(c) => {
                    println!("case passes: {:?}", c.ratios);
                    0
                }
                Err(f) => {
                    println!("VIOLATION property={id} replay={}", args[2]);
                    println!("{}", f.msg);
                    1
                }
            }
        }
        Some("list") => {
            for p in props {
                println!("{}", p.id());
            }
            0
        }
        _ => {
            eprintln!("usage: check ID [tier] | replay FILE | one ID FILE | list");
            2
        }
    };
    std::process::exit(code)
}

fn worker(p: &dyn DynProp, spec: ShardSpec, dir: &Path) -> i32 {
    use std::os::unix::fs::FileExt;
    let known = Known::load(&root());
    let cur = std::fs::File::create(dir.join(format!("cur-{}", spec.shard))).unwrap();
    // case index and a count of executions (the watchdog's sign of life)
    let beats = std::cell::Cell::new(0_u64);
    let note = |i: u64, _v: &Value| {
        beats.set(beats.get() + 1);
        let mut b = [0_u8; 16];
        b[..8].copy_from_slice(&i.to_le_bytes());
        b[8..].copy_from_slice(&beats.get().to_le_bytes());
        let _ = cur.write_at(&b, 0);
    };
    let out = p.run_shard(&spec, &note, &known);
    let f = dir.join(format!("out-{}.json", spec.shard));
    std::fs::write(f, serde_json::to_string(&out).unwrap()).unwrap();
    0
}

pub struct TmpDir(pub PathBuf);
impl TmpDir {
    pub fn new(id: &str) -> TmpDir {
        let d = std::env::temp_dir().join(format!("fsv-{id}-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch dir");
        TmpDir(d)
    }
}
impl Drop for TmpDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// print result lines, write evidence, return the exit code
pub fn conclude(
    p: &dyn DynProp,
    tier: Tier,
    seed: u64,
    m: &ShardOut,
    wall: f64,
    extra: Value,
    bin: &str,
) -> i32 {
    let r = root();
    let known = Known::load(&r);
    let viol = u64::from(m.failure.is_some());
    write_evidence(
        &r,
        p.id(),
        tier,
        seed,
        p.rule(),
        p.assumptions(),
        m,
        wall,
        viol,
        extra,
    );
    for (id, sig, text) in &known.entries {
        if id == p.id() {
            println!("KNOWN-FINDING: property={id} {text} [{sig}]");
        }
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} comparisons, {:.1}s",
        p.id(),
        tier.name(),
        m.evaluations,
        m.hashes.len(),
        m.comparisons,
        wall
    );
    if let Some((case, f)) = &m.failure {
        let path = write_replay(&r, p.id(), case, f, bin);
        println!("  {}", f.msg);
        println!("VIOLATION property={} replay={}", p.id(), path.display());
        let _ = std::io::stdout().flush();
        return 1;
    }
    let _ = std::io::stdout().flush();
    0
}

struct Kid {
    child: std::process::Child,
    beat: u64,
    since: Instant,
    awake: Instant,
    end: Option<std::process::ExitStatus>,
}

/// How long a single case may take before it counts as not coming to an end
/// (the slowest ones take a few tenths of a second).
fn stall() -> Duration {
    Duration::from_secs(
        std::env::var("FSV_STALL_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(90),
    )
}

fn check_serial(p: &dyn DynProp, tier: Tier) -> i32 {
    let start = Instant::now();
    let seed = seed_from_env();
    let r = root();
    let known = Known::load(&r);
    let tmp = TmpDir::new(p.id());
    // the shards with odd numbers without assertions, where that is asked for
    let bare = |shard: usize| shard % 2 == 1;

    // saved cases first
    let mut pre = ShardOut::default();
    let both = [Some(false), bare_exe().map(|_| true)];
    for (v, b) in regressions(&r, p.id()).into_iter().flat_map(|v| both.into_iter().flatten().map(move |b| (v.clone(), b))) {
        use_bare(b);
        pre.evaluations += 1;
        *pre.labels.entry("saved-case".into()).or_insert(0) += 1;
        if let Err(f) = exec_in_child(p.id(), &v, &tmp.0, stall()) {
            if known.matching(p.id(), &f.sig).is_none() {
                pre.failure = Some((v, f));
                return conclude(p, tier, seed, &pre, start.elapsed().as_secs_f64(), json!({}), &exe().display().to_string());
            }
        }
    }

    let total = p.total_cases(tier);
    let per = total.div_ceil(SHARDS);
    let mut kids = Vec::new();
    for s in 0..SHARDS {
        let err = std::fs::File::create(tmp.0.join(format!("err-{s}"))).expect("scratch file");
        use_bare(bare(s));
        let c = capped(&exe())
            .args([
                "worker",
                p.id(),
                tier.name(),
                &seed.to_string(),
                &s.to_string(),
                &per.to_string(),
                &tmp.0.display().to_string(),
            ])
            .env("RAYON_NUM_THREADS", "3")
            .stdin(Stdio::null())
            .stderr(err)
            .spawn()
            .expect("spawn worker");
        kids.push(Kid {
            child: c,
            beat: 0,
            since: Instant::now(),
            awake: Instant::now(),
            end: None,
        });
    }
    let note = |s: usize| -> (u64, u64) {
        let b = std::fs::read(tmp.0.join(format!("cur-{s}"))).unwrap_or_default();
        if b.len() < 16 {
            return (0, 0);
        }
        let g = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
        (g(0), g(8))
    };
    // all workers to their end; one that shows no sign of life is stopped,
    // and the others with it (they would run into the same)
    let mut stuck = None;
    while stuck.is_none() && kids.iter().any(|k| k.end.is_none()) {
        std::thread::sleep(Duration::from_millis(20));
        for (s, k) in kids.iter_mut().enumerate().filter(|(_, k)| k.end.is_none()) {
            k.end = k.child.try_wait().expect("wait");
            let (_, beat) = note(s);
            if beat != k.beat {
                (k.beat, k.since) = (beat, Instant::now());
            } else if k.end.is_none() {
                // a worker asleep all the time needs no long wait
                if k.since.elapsed() < Duration::from_secs(1) || !asleep(k.child.id()) {
                    k.awake = Instant::now();
                }
                let waits = k.awake.elapsed() > Duration::from_secs(30);
                if waits || k.since.elapsed() > stall() {
                    stuck = Some((s, waits));
                    break;
                }
            }
        }
    }
    let spec = |s: usize| ShardSpec {
        tier,
        seed,
        shard: s,
        cases: per,
    };
    let id = p.id();
    let mut outs = vec![pre];
    let mut failed = stuck.map(|(s, _)| s);
    if let Some((s, waits)) = stuck {
        for k in kids.iter_mut().filter(|k| k.end.is_none()) {
            let _ = k.child.kill();
            let _ = k.child.wait();
        }
        let (idx, _) = note(s);
        use_bare(bare(s));
        let mut o = ShardOut {
            evaluations: idx + 1,
            ..Default::default()
        };
        // once, then many times in a row
        for times in [1, 1000] {
            let limit = std::cell::Cell::new(stall());
            let begun = Instant::now();
            let first = std::cell::RefCell::new(None);
            let ex = |v: &Value| {
                if begun.elapsed() > stall() + Duration::from_secs(120) {
                    return Ok(Ctx::default());
                }
                first.borrow_mut().get_or_insert_with(|| v.clone());
                let r = exec_repeatedly(id, v, times, &tmp.0, limit.get());
                // smaller cases need not be waited for that long
                limit.set(Duration::from_secs(if times == 1 { 10 } else { 30 }));
                r
            };
            o.failure = p.shrink_case(&spec(s), idx, &ex, 40);
            if o.failure.is_some() {
                break;
            }
            if waits && times > 1 {
                // all threads of the worker waited for each other: that is
                // an observation of its own
                o.failure = first.take().map(|v| {
                    let msg = format!("case {idx} of worker {s} never ended: all of its threads waited; the case alone came to an end");
                    (v, Fail { sig: "stall".into(), msg })
                });
            }
        }
        if o.failure.is_none() {
            eprintln!("worker {s} gave no sign of life at case {idx}, not reproduced");
            return 2;
        }
        outs.push(o);
        kids.clear();
    }
    for (s, k) in kids.into_iter().enumerate() {
        let status = k.end.expect("ended");
        let err = || {
            let e = std::fs::read(tmp.0.join(format!("err-{s}"))).unwrap_or_default();
            String::from_utf8_lossy(&e).to_string()
        };
        if status.success() {
            let f = tmp.0.join(format!("out-{s}.json"));
            let t = std::fs::read_to_string(f).expect("worker output");
            let o: ShardOut = serde_json::from_str(&t).expect("worker json");
            if o.failure.is_some() && outs.iter().all(|o: &ShardOut| o.failure.is_none()) {
                failed = Some(s);
            }
            outs.push(o);
        } else if let Some(sig) = is_crash(&status) {
            let (idx, _) = note(s);
            use_bare(bare(s));
            let ex = |v: &Value| exec_in_child(id, v, &tmp.0, stall());
            let mut o = ShardOut {
                evaluations: idx + 1,
                ..Default::default()
            };
            match p.shrink_case(&spec(s), idx, &ex, 400) {
                Some(b) => {
                    if outs.iter().all(|o: &ShardOut| o.failure.is_none()) {
                        failed = Some(s);
                    }
                    o.failure = Some(b)
                }
                None => {
                    eprintln!("worker {s} died with signal {sig} at case {idx}, not reproduced: {}", err());
                    return 2;
                }
            }
            outs.push(o);
        } else {
            eprintln!("worker {s} ended abnormally: {status:?} {}", err());
            return 2;
        }
    }
    let m = merge(outs);
    use_bare(failed.is_some_and(bare));
    conclude(
        p,
        tier,
        seed,
        &m,
        start.elapsed().as_secs_f64(),
        json!({
            "shards": SHARDS,
            "cases_per_shard": per,
            "shards_built_without_assertions": if bare_exe().is_some() { SHARDS / 2 } else { 0 },
        }),
        &exe().display().to_string(),
    )
}
