//! Runs batches of generated cases under mpirun, finds the failing case and
//! shrinks it by re-running single cases.
use fsv_core::*;
use funspace::space_mpi::{initialize, Communicator, CommunicatorCollectives, Universe};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub const MAX_NP: usize = 8;
/// more ranks than processors, for a few cases
const MANY: [usize; 2] = [11, 16];
/// no rank finished a case for this long: the ranks wait for each other
const STALL: Duration = Duration::from_secs(60);

pub struct Uni(&'static Universe);
unsafe impl Send for Uni {}
unsafe impl Sync for Uni {}
static UNI: OnceLock<Uni> = OnceLock::new();
pub fn uni() -> &'static Universe {
    UNI.get().expect("universe").0
}
pub fn rank() -> usize {
    uni().world().rank() as usize
}
pub fn nprocs() -> usize {
    uni().world().size() as usize
}

// ---------------------------------------------------------------- rank side

fn rank_main(p: &dyn DynProp, cases: &Path, dir: &Path) -> i32 {
    let u: &'static Universe = Box::leak(Box::new(initialize().expect("MPI_Init")));
    let _ = UNI.set(Uni(u));
    let world = u.world();
    let me = rank();
    let list: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(cases).unwrap()).unwrap();
    let cur = std::fs::File::create(dir.join(format!("cur-{me}"))).unwrap();
    let known = Known::load(&root());
    let mut out = ShardOut::default();
    let mut seen = HashSet::new();
    for (i, v) in list.into_iter().enumerate() {
        let _ = cur.write_at(&(i as u64 + 1).to_le_bytes(), 0);
        match p.exec_value(&v) {
            Ok(ctx) => {
                if me == 0 {
                    out.absorb(v, ctx, &mut seen);
                }
            }
            Err(f) => {
                if let Some(k) = known.matching(p.id(), &f.sig) {
                    *out.known.entry(k).or_insert(0) += 1;
                    continue;
                }
                let t = dir.join(format!("t-{me}"));
                let msg = Fail {
                    sig: f.sig,
                    msg: format!("rank {me} of {}: {}", nprocs(), f.msg),
                };
                std::fs::write(&t, serde_json::to_string(&(i, msg)).unwrap()).unwrap();
                std::fs::rename(&t, dir.join(format!("fail-{me}.json"))).unwrap();
                world.abort(17);
            }
        }
        world.barrier();
    }
    if me == 0 {
        std::fs::write(dir.join("out.json"), serde_json::to_string(&out).unwrap()).unwrap();
    }
    world.barrier();
    // skip MPI_Finalize problems: the results are on disk
    0
}

// ---------------------------------------------------------------- driver side

enum Outcome {
    Done(ShardOut),
    Fail(usize, Fail),
    /// MPI or a fatal signal ended the run while a rank was in one of these cases
    Crash(Vec<usize>, String),
    Stall(Vec<usize>),
    Launch(String),
}

fn kill_group(pid: u32) {
    for s in ["-TERM", "-KILL"] {
        let _ = Command::new("kill").args([s, "--", &format!("-{pid}")]).stderr(Stdio::null()).status();
        std::thread::sleep(Duration::from_millis(if s == "-TERM" { 1500 } else { 100 }));
    }
}

fn launch(np: usize, id: &str, cases: &[Value], dir: &Path, unshared: bool, stall: Duration) -> Outcome {
    use std::os::unix::process::CommandExt;
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).expect("scratch");
    let cf = dir.join("cases.json");
    std::fs::write(&cf, serde_json::to_string(cases).unwrap()).unwrap();
    let exe = exe();
    let mpi = format!(
        "exec mpirun --allow-run-as-root --oversubscribe --bind-to none --mca mpi_yield_when_idle 1 \
         --mca btl self,vader --mca btl_vader_single_copy_mechanism none --mca plm isolated \
         --mca oob_tcp_if_include lo -np {np} '{}' rank {id} '{}' '{}'",
        exe.display(),
        cf.display(),
        dir.display()
    );
    let mut cmd = if unshared {
        let mut c = Command::new("unshare");
        c.args(["-Urn", "bash", "-c", &format!("ip link set lo up; {mpi}")]);
        c
    } else {
        let mut c = Command::new("bash");
        c.args(["-c", &mpi]);
        c
    };
    let errf = dir.join("stderr");
    let mut child = cmd
        .env("TMPDIR", dir)
        .env("OMPI_ALLOW_RUN_AS_ROOT", "1")
        .env("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1")
        .env("RAYON_NUM_THREADS", "1")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(&errf).unwrap())
        .process_group(0)
        .spawn()
        .expect("spawn mpirun");
    let curs = || -> Vec<u64> {
        (0..np)
            .map(|r| {
                std::fs::read(dir.join(format!("cur-{r}")))
                    .ok()
                    .filter(|b| b.len() >= 8)
                    .map_or(0, |b| u64::from_le_bytes(b[..8].try_into().unwrap()))
            })
            .collect()
    };
    let started = Instant::now();
    let mut last = (curs(), Instant::now());
    let mut wait = Duration::from_millis(4);
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break Some(s);
        }
        std::thread::sleep(wait);
        wait = (wait * 2).min(Duration::from_millis(50));
        let c = curs();
        if c != last.0 {
            last = (c, Instant::now());
        } else if last.1.elapsed() > stall {
            break None;
        }
    };
    let tail = || -> String {
        let s = std::fs::read_to_string(&errf).unwrap_or_default();
        let l: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty() && !l.starts_with("---")).take(6).collect();
        l.join(" | ")
    };
    if status.is_none() {
        kill_group(child.id());
        let _ = child.wait();
    }
    // verdicts written by the ranks come first
    let mut fails: Vec<(usize, Fail)> = (0..np)
        .filter_map(|r| std::fs::read_to_string(dir.join(format!("fail-{r}.json"))).ok())
        .filter_map(|s| serde_json::from_str(&s).ok())
        .collect();
    fails.sort_by_key(|f| f.0);
    if let Some((i, f)) = fails.into_iter().next() {
        return Outcome::Fail(i, f);
    }
    let c = curs();
    let cand = || -> Vec<usize> {
        let mut v: Vec<usize> = c.iter().filter(|x| **x > 0).map(|x| *x as usize - 1).collect();
        v.sort();
        v.dedup();
        v
    };
    let finished = std::fs::read_to_string(dir.join("out.json")).ok();
    if let Some(t) = finished {
        return Outcome::Done(serde_json::from_str(&t).expect("rank output"));
    }
    if c.iter().all(|x| *x == 0) {
        return Outcome::Launch(format!("{} after {:?}", tail(), started.elapsed()));
    }
    match status {
        None => Outcome::Stall(cand()),
        Some(_) => Outcome::Crash(cand(), tail()),
    }
}

struct Driver<'a> {
    p: &'a dyn DynProp,
    tmp: PathBuf,
    unshared: bool,
}

impl Driver<'_> {
    fn run(&mut self, np: usize, cases: &[Value], stall: Duration) -> Outcome {
        let dir = self.tmp.join("run");
        let mut last = String::new();
        for attempt in 0..4 {
            match launch(np, self.p.id(), cases, &dir, self.unshared, stall) {
                Outcome::Launch(m) => {
                    last = m;
                    self.unshared = attempt % 2 == 0;
                }
                o => return o,
            }
        }
        Outcome::Launch(last)
    }
    /// one case on its own, or a saved sequence of them
    fn single(&mut self, v: &Value, stall: Duration) -> Result<(), Fail> {
        let np = v["np"].as_u64().expect("np") as usize;
        let cases = v["sequence"].as_array().cloned().unwrap_or_else(|| vec![v.clone()]);
        match self.run(np, &cases, stall) {
            Outcome::Done(_) => Ok(()),
            Outcome::Fail(_, f) => Err(f),
            Outcome::Crash(_, m) => fail("mpi", format!("{np} ranks: the run was ended: {m}")),
            Outcome::Stall(_) => fail("stall", format!("{np} ranks: ranks wait for each other forever")),
            Outcome::Launch(m) => {
                eprintln!("cannot start {np} MPI ranks: {m}");
                std::process::exit(2)
            }
        }
    }
}

fn check(p: &dyn DynProp, tier: Tier) -> i32 {
    let start = Instant::now();
    let seed = seed_from_env();
    let r = root();
    let known = Known::load(&r);
    let tmp = TmpDir::new(p.id());
    let mut d = Driver {
        p,
        tmp: tmp.0.clone(),
        unshared: false,
    };
    let mut outs = Vec::new();
    let finish = |outs: Vec<ShardOut>| {
        let m = merge(outs);
        conclude(
            p,
            tier,
            seed,
            &m,
            start.elapsed().as_secs_f64(),
            json!({
                "mpi_ranks": "1 to 8, a few cases on 11 and 16",
                "comparisons_counted_on": "rank 0",
                "every_second_run_built_without_assertions": bare_exe().is_some(),
            }),
            &exe().display().to_string(),
        )
    };
    // the cases of every communicator size in several runs, largest sizes
    // first; saved cases at the start of the first run
    let saved = regressions(&r, p.id());
    let per = p.total_cases(tier).div_ceil(MAX_NP);
    let runs = tier.pick(4, 16);
    let spec = |np: usize| ShardSpec {
        tier,
        seed,
        shard: np - 1,
        cases: per,
    };
    let mut all: Vec<Vec<Value>> = (1..=MAX_NP).map(|np| p.batch(&spec(np))).collect();
    let many = per / 24;
    for np in MANY {
        all.resize(np, Vec::new());
        all[np - 1] = p.batch(&ShardSpec { cases: many, ..spec(np) });
    }
    let sizes = |k: usize| {
        let more: &[usize] = if k == 1 || k == 2 { &MANY } else { &[] };
        (1..=MAX_NP).rev().chain(more.iter().copied())
    };
    for (run, np) in (0..runs).flat_map(|k| sizes(k).map(move |np| (k, np))) {
        if start.elapsed() > tier.time() {
            let mut o = ShardOut::default();
            o.labels.insert("stopped by the time limit".into(), 1);
            outs.push(o);
            break;
        }
        use_bare(run % 2 == 1);
        let mut cases: Vec<Value> = match run {
            0 | 1 => saved.iter().filter(|v| v["np"].as_u64() == Some(np as u64)).cloned().collect(),
            _ => Vec::new(),
        };
        let nsaved = cases.len();
        let (from, to) = if np > MAX_NP {
            (many * (run - 1) / 2, many * run / 2)
        } else {
            (per * run / runs, per * (run + 1) / runs)
        };
        cases.extend(all[np - 1][from..to].iter_mut().map(Value::take));
        let spec = spec(np);
        let first = d.run(np, &cases, STALL);
        let (idx, f) = match first {
            Outcome::Done(o) => {
                outs.push(o);
                continue;
            }
            Outcome::Launch(m) => {
                eprintln!("cannot start {np} MPI ranks: {m}");
                return 2;
            }
            Outcome::Fail(i, f) => (i, f),
            Outcome::Crash(..) | Outcome::Stall(_) => {
                let (c, m) = match first {
                    Outcome::Crash(c, m) => (c, m),
                    Outcome::Stall(c) => (c, "ranks wait for each other".into()),
                    _ => unreachable!(),
                };
                let alone = c.iter().find_map(|i| d.single(&cases[*i], STALL).err().map(|f| (*i, f)));
                match alone {
                    Some(x) => x,
                    None => {
                        // only the history leads there: the cases up to it, twice more
                        let top = c.iter().max().copied().unwrap_or(0);
                        let seq = json!({"np": np, "sequence": cases[..=top]});
                        let again = (0..2).filter_map(|_| d.single(&seq, STALL).err()).collect::<Vec<_>>();
                        if again.len() < 2 {
                            eprintln!("{np} MPI ranks ended in cases {c:?}, not reproduced: {m}");
                            return 2;
                        }
                        outs.push(ShardOut {
                            evaluations: top as u64 + 1,
                            failure: Some((seq, again.into_iter().next().unwrap())),
                            ..Default::default()
                        });
                        return finish(outs);
                    }
                }
            }
        };
        let mut o = ShardOut {
            evaluations: idx as u64 + 1,
            ..Default::default()
        };
        let mut best = (cases[idx].clone(), f);
        if idx >= nsaved {
            let cell = std::cell::RefCell::new(&mut d);
            let ex = |v: &Value| -> Result<Ctx, Fail> {
                match cell.borrow_mut().single(v, Duration::from_secs(15)) {
                    Err(f) if known.matching(p.id(), &f.sig).is_none() => Err(f),
                    _ => Ok(Ctx::default()),
                }
            };
            if let Some(b) = p.shrink_case(&spec, (from + idx - nsaved) as u64, &ex, 150) {
                best = b;
            }
        }
        o.failure = Some(best);
        outs.push(o);
        return finish(outs);
    }
    finish(outs)
}

pub fn main(serial: &[&dyn DynProp], par: &[&dyn DynProp]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let id = if arg(1) == "replay" {
        let j: Value = serde_json::from_str(&std::fs::read_to_string(arg(2)).unwrap()).unwrap();
        j["property"].as_str().unwrap().to_string()
    } else {
        arg(2).to_string()
    };
    let Some(p) = par.iter().find(|p| p.id() == id) else {
        main_serial(serial)
    };
    install_panic_hook();
    let code = match arg(1) {
        "check" => check(*p, tier_from_env(args.get(3).map(|s| s.as_str()))),
        "rank" => rank_main(*p, Path::new(arg(3)), Path::new(arg(4))),
        "replay" => {
            let j: Value = serde_json::from_str(&std::fs::read_to_string(arg(2)).unwrap()).unwrap();
            let tmp = TmpDir::new(p.id());
            let mut d = Driver {
                p: *p,
                tmp: tmp.0.clone(),
                unshared: false,
            };
            match d.single(&j["case"], STALL) {
                Ok(()) => {
                    println!("case passes");
                    0
                }
                Err(f) => {
                    println!("VIOLATION property={id} replay={}", arg(2));
                    println!("{}", f.msg);
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: check ID [tier] | replay FILE");
            2
        }
    };
    std::process::exit(code)
}
