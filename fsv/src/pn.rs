//! Multi-dimensional properties: lane-wise application, variants and
//! histories, spaces, space gradients.
use crate::any::*;
use crate::case::*;
use crate::spaces::*;
use fsv_core::data::{any_data, size};
use fsv_core::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

fn op4() -> BoxedStrategy<Op> {
    prop_oneof![
        2 => Just(Op::Forward),
        2 => Just(Op::Backward),
        1 => Just(Op::ToOrtho),
        1 => Just(Op::FromOrtho),
    ]
    .boxed()
}
fn op5() -> BoxedStrategy<Op> {
    prop_oneof![3 => op4(), 2 => (0u8..=4).prop_map(Op::Gradient)].boxed()
}

// ================================================================= C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lanes {
    pub kind: Kind,
    pub prec: Prec,
    pub n: usize,
    pub axis: usize,
    /// lengths of the other dimensions
    pub other: Vec<usize>,
    pub op: Op,
    pub cplx: bool,
    pub mode: Mode,
    pub dynd: bool,
    pub data: Data,
    /// one lane filled with NaN or infinities; the others must not notice
    #[serde(default)]
    pub poison: Option<u32>,
}

fn c11(c: &Lanes, ctx: &mut Ctx) -> Res {
    let b = make(c.kind, c.n, c.prec);
    let (li, lo) = c.op.lens(c.kind, c.n);
    let mut shape = c.other.clone();
    shape.insert(c.axis, li);
    let lanes: usize = c.other.iter().product();
    ctx.nontrivial = lanes > 1;
    ctx.label(format!("{}D/axis{}/{}", shape.len(), c.axis, c.op.name()));
    let cx = c.op.in_complex(c.kind, c.cplx);
    let mut x = arr_of(&c.data, &shape, cx, c.prec, 1);
    let tol = 100. * c.prec.eps() * amp(c.op, c.kind, c.n) * x.max_abs();
    let bad = c.poison.filter(|_| lanes > 1).map(|p| p as usize % lanes);
    if let Some(p) = bad {
        let v = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][c.n % 3];
        x.fill_lane(c.axis, p, C64::new(v, if cx { v } else { 0. }));
    }
    if lanes == 0 {
        ctx.label("no-lane");
    } else if lanes > 60 {
        ctx.label("many-lanes");
    }
    let mut got = b.op(c.op, c.cplx, c.mode, c.dynd, &x, c.axis);
    let other = make(c.kind, c.n, c.prec);
    let junk = vec![GARBAGE; lo];
    let mut want = x.map_axis(c.axis, lo, |lane| other.slice(c.op, c.cplx, lane, &junk));
    ctx.check("shape", got.shape == want.shape, || format!("got {:?} want {:?}", got.shape, want.shape))?;
    if let Some(p) = bad {
        ctx.label("poisoned-lane");
        got.fill_lane(c.axis, p, C64::new(0., 0.));
        want.fill_lane(c.axis, p, C64::new(0., 0.));
    }
    same(ctx, "lane", &got, &want, tol)
}

fn g11(t: Tier, _s: usize) -> BoxedStrategy<Lanes> {
    let maxn = t.pick(40, 120);
    let others = |k: usize| {
        prop::collection::vec(
            prop_oneof![1 => Just(0usize), 5 => Just(1usize), 34 => 2usize..6, 5 => 6usize..20],
            k,
        )
    };
    // many lanes: blocks, chunks and thresholds of lane loops
    let big = prop_oneof![
        2 => (3usize..9000).prop_map(|a| vec![a]),
        2 => (2usize..90, 2usize..70).prop_map(|(a, b)| vec![a, b]),
        1 => (2usize..24, 2usize..18, 2usize..12).prop_map(|(a, b, c)| vec![a, b, c]),
        1 => (2usize..40).prop_map(|a| vec![a]),
    ];
    // lane counts beyond 16 bits
    let very = (0usize..70, 9000usize..150_000).prop_map(|(c, a)| vec![if c == 0 { a } else { a % 9000 + 3 }]);
    let big = prop_oneof![1 => very, 6 => big];
    let big = (big, any::<u8>()).prop_map(|(o, a)| (a as usize % (o.len() + 1), o));
    let shape = prop_oneof![12 => 1usize..=4, 1 => 5usize..=6, 1 => 7usize..=9].prop_flat_map(move |nd| {
        (
            0..nd,
            others(nd - 1).prop_map(move |mut o| {
                if nd > 4 {
                    let m = if nd > 6 { 2 } else { 3 };
                    o.iter_mut().for_each(|x| *x = 1 + *x % m);
                }
                o
            }),
        )
    });
    let usual = (
        select(&ALL_KINDS[..]).prop_flat_map(move |k| (Just(k), size(k.min_n(), maxn))),
        shape,
    );
    let large = (select(&ALL_KINDS[..]), big).prop_flat_map(move |(k, o)| {
        let lanes: usize = o.1.iter().product();
        let top = (t.pick(30_000, 120_000) / lanes).clamp(k.min_n() + 6, 400);
        ((Just(k), k.min_n()..=top), Just(o))
    });
    (
        prop_oneof![60 => usual.boxed(), 1 => large.boxed()],
        prec(),
        op5(),
        any::<bool>(),
        mode4(),
        any::<bool>(),
        any_data(),
        prop_oneof![9 => Just(None), 1 => any::<u32>().prop_map(Some)],
    )
        .prop_map(|(((kind, n), (axis, other)), prec, op, cplx, mode, dynd, mut data, poison)| {
            if prec == Prec::F32 {
                data.exp = 0;
            }
            let dynd = dynd || other.len() >= 4;
            Lanes { kind, prec, n, axis, other, op, cplx, mode, dynd, data, poison }
        })
        .boxed()
}
pub static C11: Prop<Lanes> = Prop {
    id: "C11",
    rule: "a base, an array of 1 to 9 dimensions (static up to 4, or dynamic dimensionality), an axis, one operation in one of the four calling variants; up to 9000 (rarely 150000) lanes and down to none, sometimes one lane of NaN or infinities; every (other) lane compared with the one-dimensional operation on that lane; non-trivial: more than one lane",
    cases: (1_440_000, 7_200_000),
    gen: g11,
    exec: c11,
    assumptions: &["the one-dimensional slice operations are judged on their own by C02 to C07"],
};

// ================================================================= C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    pub op: Op,
    pub mode: Mode,
    pub cplx: bool,
    pub data: Data,
    /// instance to use, modulo the number alive
    pub inst: u8,
    pub act: Act,
    /// rayon pool: 1, 2, 3, 8 or 33 threads
    pub pool: u8,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Act {
    Call,
    /// clone the instance first and use the clone
    Clone,
    /// use a clone, then drop the original
    Replace,
    /// run this step from several threads at once on the shared instance
    Threads(u8),
    /// run this step as several tasks of one work-stealing pool at once: a
    /// worker waiting inside one call picks up another call
    Tasks(u8),
    /// several threads at once, each with an operation of its own, some of
    /// them on clones
    Mixed(u8),
    /// this step after very many calls of the same operation
    Many(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Target {
    Base { kind: Kind, n: usize, prec: Prec, axis: u8, other: Vec<usize> },
    Space(SpaceSpec),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub target: Target,
    pub steps: Vec<Step>,
    /// what another process does with other bases before it repeats the
    /// steps; it must get what a process doing nothing else gets
    #[serde(default)]
    pub prelude: Option<Vec<(Kind, usize, Prec)>>,
}

enum Inst {
    B(Box<dyn AnyBase>),
    S(Box<dyn AnySpace>),
}
impl Target {
    fn build(&self) -> Inst {
        match self {
            Target::Base { kind, n, prec, .. } => Inst::B(make(*kind, *n, *prec)),
            Target::Space(s) => Inst::S(s.build()),
        }
    }
    fn prec(&self) -> Prec {
        match self {
            Target::Base { prec, .. } => *prec,
            Target::Space(s) => s.prec,
        }
    }
    fn axis(&self) -> usize {
        match self {
            Target::Base { axis, .. } => *axis as usize,
            _ => 0,
        }
    }
    /// operations a space offers exclude the per-axis gradient
    fn fit(&self, op: Op) -> Op {
        match (self, op) {
            (Target::Space(_), Op::Gradient(_)) => Op::ToOrtho,
            _ => op,
        }
    }
    fn input(&self, op: Op, cplx: bool, d: &Data, stream: u64) -> Arr {
        match self {
            Target::Base { kind, n, prec, axis, other } => {
                let mut shape = other.clone();
                shape.insert(*axis as usize, op.lens(*kind, *n).0);
                arr_of(d, &shape, op.in_complex(*kind, cplx), *prec, stream)
            }
            Target::Space(s) => {
                arr_of(d, &s.shape(op, false), s.in_complex(op, cplx), s.prec, stream)
            }
        }
    }
    fn amp(&self, op: Op) -> f64 {
        match self {
            Target::Base { kind, n, .. } => amp(op, *kind, *n),
            Target::Space(s) => s.axes.iter().map(|(k, n)| amp(op, *k, *n)).product(),
        }
    }
}
impl Inst {
    fn dup(&self) -> Inst {
        match self {
            Inst::B(b) => Inst::B(b.clone_box()),
            Inst::S(s) => Inst::S(s.clone_box()),
        }
    }
    fn op(&self, op: Op, cplx: bool, mode: Mode, x: &Arr, axis: usize) -> Arr {
        match self {
            Inst::B(b) => b.op(op, cplx, mode, false, x, axis),
            Inst::S(s) => s.op(op, cplx, mode, x),
        }
    }
    /// caller-supplied, already used output
    fn op_into(&self, op: Op, cplx: bool, par: bool, x: &Arr, out: &Arr, axis: usize) -> Arr {
        match self {
            Inst::B(b) => b.op_into(op, cplx, par, x, out, axis),
            Inst::S(s) => s.op_into(op, cplx, par, x, out),
        }
    }
}

fn pool(i: u8) -> &'static rayon::ThreadPool {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    let v = P.get_or_init(|| {
        [1usize, 2, 3, 8, 33]
            .iter()
            .map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())
            .collect()
    });
    &v[i as usize % 5]
}

/// everything observable about the target in this process, after the prelude
fn digest(c: &Hist) -> Vec<(String, Arr)> {
    for (k, n, p) in c.prelude.iter().flatten() {
        let _ = no_panic(|| {
            let b = make(*k, *n, *p);
            b.coords();
            for op in [Op::Forward, Op::Backward, Op::ToOrtho, Op::FromOrtho, Op::Gradient(2)] {
                let cx = op.in_complex(*k, false);
                let d = Data::unit(*n as u32);
                let x = arr_of(&d, &[op.lens(*k, *n).0], cx, *p, 0);
                b.op(op, false, Mode::Alloc, false, &x, 0);
            }
            if *n <= 64 {
                for m in [Mat::Diff(1), Mat::DiffPinv(2), Mat::Stencil, Mat::StencilInv, Mat::LapPinv] {
                    b.mat(m);
                }
            }
        });
    }
    let t = &c.target;
    let inst = t.build();
    let mut out = Vec::new();
    let mats = |m: Matrix| Arr::new(&[m.r, m.c], m.a);
    let all = [Mat::Stencil, Mat::StencilInv, Mat::Lap, Mat::LapPinv, Mat::LapPeye];
    let real = |v: Vec<f64>| Arr::vec(v.into_iter().map(|x| C64::new(x, 0.)).collect());
    match &inst {
        Inst::B(b) => {
            out.push(("coords".into(), real(b.coords())));
            if b.lens()[0] <= 64 {
                for m in all.iter().chain(&[Mat::Diff(1), Mat::DiffPinv(1), Mat::DiffPeye(2)]) {
                    if let Ok(a) = no_panic(|| b.mat(*m)) {
                        out.push((format!("{m:?}"), mats(a)));
                    }
                }
            }
        }
        Inst::S(s) => {
            for (a, v) in s.coords().into_iter().enumerate() {
                out.push((format!("coords {a}"), real(v)));
                if s.shapes()[0][a] <= 64 {
                    for m in all {
                        if let Ok(x) = no_panic(|| s.mat(a, m)) {
                            out.push((format!("axis {a} {m:?}"), mats(x)));
                        }
                    }
                }
            }
        }
    }
    for (i, s) in c.steps.iter().enumerate() {
        let op = t.fit(s.op);
        let x = t.input(op, s.cplx, &s.data, i as u64);
        let y = inst.op(op, s.cplx, s.mode, &x, t.axis());
        out.push((format!("step {i} {}", op.name()), y));
    }
    out
}
/// `fsv digest`: a history on stdin, its digest on stdout
pub fn digest_main() {
    use std::io::{Read, Write};
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let c: Hist = serde_json::from_str(&s).unwrap();
    let d: Vec<(String, Vec<usize>, Vec<(u64, u64)>)> = digest(&c)
        .into_iter()
        .map(|(l, a)| {
            let v = a.data.iter().map(|z| (z.re.to_bits(), z.im.to_bits())).collect();
            (l, a.shape, v)
        })
        .collect();
    std::io::stdout().write_all(serde_json::to_string(&d).unwrap().as_bytes()).unwrap();
}
fn digest_elsewhere(c: &Hist) -> Result<Vec<(String, Arr)>, String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut k = Command::new(std::env::current_exe().unwrap())
        .arg("digest")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    k.stdin.take().unwrap().write_all(serde_json::to_string(c).unwrap().as_bytes()).expect("write");
    let o = k.wait_with_output().expect("wait");
    if !o.status.success() {
        return Err(format!("{:?}", o.status));
    }
    let d: Vec<(String, Vec<usize>, Vec<(u64, u64)>)> = serde_json::from_slice(&o.stdout).expect("digest");
    let f = f64::from_bits;
    Ok(d.into_iter()
        .map(|(l, sh, v)| (l, Arr::new(&sh, v.into_iter().map(|z| C64::new(f(z.0), f(z.1))).collect())))
        .collect())
}
fn across_processes(c: &Hist, ctx: &mut Ctx) -> Res {
    ctx.label("other process");
    let bare = Hist { prelude: None, ..c.clone() };
    let (a, b) = match (digest_elsewhere(c), digest_elsewhere(&bare)) {
        (Ok(a), Ok(b)) => (a, b),
        // both fail alike: the in-process history reports it
        (Err(a), Err(b)) if a == b => return Ok(()),
        (a, b) => {
            let (a, b) = (a.map(|_| ()), b.map(|_| ()));
            return fail("process history", format!("with other bases used before: {a:?}, without: {b:?}"));
        }
    };
    ctx.check("process history", a.len() == b.len(), || format!("{} {}", a.len(), b.len()))?;
    let t = &c.target;
    for ((l, x), (_, y)) in a.iter().zip(&b) {
        let i: Option<usize> = l.strip_prefix("step ").and_then(|r| r.split(' ').next()?.parse().ok());
        let tol = match i {
            Some(i) => {
                let s = &c.steps[i];
                let op = t.fit(s.op);
                100. * t.prec().eps() * t.amp(op) * t.input(op, s.cplx, &s.data, i as u64).max_abs()
            }
            None => 4. * t.prec().eps() * y.max_abs(),
        };
        same(ctx, &format!("process history {l}"), x, y, tol)?;
    }
    Ok(())
}

fn c12(c: &Hist, ctx: &mut Ctx) -> Res {
    let t = &c.target;
    if c.prelude.is_some() {
        across_processes(c, ctx)?;
    }
    let axis = t.axis();
    let mut insts = vec![t.build()];
    let mut out_of: Vec<(Op, bool, Arr)> = Vec::new();
    ctx.nontrivial = c.steps.len() > 1;
    match t {
        Target::Base { kind, .. } => ctx.label(format!("base {kind:?}")),
        Target::Space(s) => ctx.label(format!("space{}", s.axes.len())),
    }
    for (i, s) in c.steps.iter().enumerate() {
        let op = t.fit(s.op);
        let x = t.input(op, s.cplx, &s.data, i as u64);
        // reference: a fresh instance, serial, allocating
        let want = t.build().op(op, s.cplx, Mode::Alloc, &x, axis);
        let tol = 100. * t.prec().eps() * t.amp(op) * x.max_abs();
        let mut k = s.inst as usize % insts.len();
        match s.act {
            Act::Clone if insts.len() < 4 => {
                let d = insts[k].dup();
                insts.push(d);
                k = insts.len() - 1;
                ctx.label("clone");
            }
            Act::Clone | Act::Replace => {
                let d = insts[k].dup();
                insts[k] = d;
                ctx.label("replace");
            }
            _ => {}
        }
        let inst = &insts[k];
        if let Act::Many(m) = s.act {
            ctx.label("many calls");
            // keep the amount of work bounded
            let m = (m as usize).min(3_000_000 / (x.data.len() + 20));
            let scratch = want.clone();
            let par = matches!(s.mode, Mode::InplacePar);
            for _ in 0..m {
                inst.op_into(op, s.cplx, par, &x, &scratch, axis);
            }
        }
        match s.act {
            Act::Threads(m) | Act::Tasks(m) => {
                let tasks = matches!(s.act, Act::Tasks(_));
                ctx.label(if tasks { "tasks of one pool" } else { "threads" });
                let m = if tasks { 4 + 4 * (m as usize % 3) } else { 2 + m as usize % 3 };
                // every thread works on its own data
                let xs: Vec<Arr> = (0..m)
                    .map(|j| t.input(op, s.cplx, &s.data, (1000 * (j + 1) + i) as u64))
                    .collect();
                let wants: Vec<Arr> = xs
                    .iter()
                    .map(|x| t.build().op(op, s.cplx, Mode::Alloc, x, axis))
                    .collect();
                let work = |x: &Arr| {
                    let mut last = None;
                    for _ in 0..2 {
                        last = Some(no_panic(|| inst.op(op, s.cplx, s.mode, x, axis)));
                    }
                    last.unwrap()
                };
                let gots: Vec<Result<Arr, String>> = if tasks {
                    use rayon::prelude::*;
                    pool(s.pool).install(|| xs.par_iter().with_max_len(1).map(work).collect())
                } else {
                    std::thread::scope(|sc| {
                        let hs: Vec<_> = xs.iter().map(|x| sc.spawn(move || work(x))).collect();
                        hs.into_iter().map(|h| h.join().unwrap()).collect()
                    })
                };
                for (j, (g, w)) in gots.into_iter().zip(&wants).enumerate() {
                    let g = match g {
                        Ok(g) => g,
                        Err(e) => return fail("panic under threads", format!("thread {j}: {e}")),
                    };
                    let tol = 100. * t.prec().eps() * t.amp(op) * xs[j].max_abs();
                    same(ctx, "concurrent call", &g, w, tol)?;
                }
            }
            Act::Mixed(m) => {
                ctx.label("threads, different operations");
                let m = 2 + m as usize % 4;
                let jobs: Vec<(Op, bool, Mode, Arr, Inst, Arr)> = (0..m)
                    .map(|j| {
                        let q = &c.steps[(i + j) % c.steps.len()];
                        let op = match (t.fit(q.op), j) {
                            (Op::Gradient(d), _) => Op::Gradient((d + j as u8) % 5),
                            (_, 1) if matches!(op, Op::Gradient(_)) => op,
                            (o, _) => o,
                        };
                        let cplx = q.cplx;
                        let x = t.input(op, cplx, &q.data, (1000 * (j + 1) + i) as u64);
                        let want = t.build().op(op, cplx, Mode::Alloc, &x, axis);
                        (op, cplx, q.mode, x, inst.dup(), want)
                    })
                    .collect();
                let start = std::sync::Barrier::new(m);
                let errors: Vec<Option<String>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = jobs
                        .iter()
                        .enumerate()
                        .map(|(j, (op, cplx, mode, x, own, want))| {
                            let start = &start;
                            sc.spawn(move || {
                                let tol = 100. * t.prec().eps() * t.amp(*op) * x.max_abs();
                                start.wait();
                                for r in 0..12 {
                                    // every other thread on a clone
                                    let on = if j % 2 == 0 { inst } else { own };
                                    match no_panic(|| on.op(*op, *cplx, *mode, x, axis)) {
                                        Err(e) => return Some(format!("call {r} of {}: {e}", op.name())),
                                        Ok(g) => {
                                            let ok = g.shape == want.shape
                                                && g.data.iter().zip(&want.data).all(|(a, b)| {
                                                    (a - b).norm() <= tol || (!b.norm().is_finite() && !a.norm().is_finite())
                                                });
                                            if !ok {
                                                return Some(format!("call {r} of {} differs", op.name()));
                                            }
                                        }
                                    }
                                }
                                None
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                for (j, e) in errors.into_iter().enumerate() {
                    if let Some(e) = e {
                        return fail("concurrent operations", format!("thread {j} of {m}: {e}"));
                    }
                }
            }
            _ => {
                // an output buffer that an earlier step already filled, if one fits
                let reuse = out_of
                    .iter()
                    .rev()
                    .find(|(o, cx, a)| {
                        a.shape == want.shape
                            && o.in_kind() == op.in_kind()
                            && *cx == s.cplx
                            && matches!(s.mode, Mode::Inplace | Mode::InplacePar)
                    })
                    .map(|e| e.2.clone());
                let par = matches!(s.mode, Mode::AllocPar | Mode::InplacePar);
                let run = || match &reuse {
                    Some(out) => inst.op_into(op, s.cplx, par, &x, out, axis),
                    None => inst.op(op, s.cplx, s.mode, &x, axis),
                };
                if reuse.is_some() {
                    ctx.label("reused-output");
                }
                ctx.label(format!("{:?}", s.mode));
                let got = if par { pool(s.pool).install(run) } else { run() };
                same(ctx, "history step", &got, &want, tol)?;
                out_of.push((op, s.cplx, got));
            }
        }
    }
    Ok(())
}

impl Op {
    /// operations whose outputs have the same scalar type
    fn in_kind(self) -> u8 {
        match self {
            Op::Forward => 0,
            Op::Backward => 1,
            _ => 2,
        }
    }
}

fn g12(t: Tier, _s: usize) -> BoxedStrategy<Hist> {
    let maxn = t.pick(24, 64);
    let base = (
        select(&ALL_KINDS[..]).prop_flat_map(move |k| (Just(k), prop_oneof![19 => k.min_n()..=maxn, 1 => maxn..=220])),
        prec(),
        (1usize..=3).prop_flat_map(|nd| (0..nd as u8, prop::collection::vec(1usize..7, nd - 1))),
    )
        .prop_map(|((kind, n), prec, (axis, other))| Target::Base { kind, n, prec, axis, other });
    let target = prop_oneof![
        1 => base,
        1 => prop_oneof![24 => space(0, [24, 14, 11]), 1 => space(0, [220, 64, 20])].prop_map(Target::Space),
    ];
    let act = prop_oneof![
        5 => Just(Act::Call),
        1 => Just(Act::Clone),
        1 => Just(Act::Replace),
        1 => (0u8..3).prop_map(Act::Threads),
        1 => (0u8..3).prop_map(Act::Tasks),
        1 => (0u8..4).prop_map(Act::Mixed),
    ];
    let act = prop_oneof![
        600 => act,
        1 => prop_oneof![4 => 200u32..1500, 1 => 65_000u32..70_000].prop_map(Act::Many),
    ];
    let step = (op5(), mode4(), any::<bool>(), any_data(), any::<u8>(), act, 0u8..20).prop_map(
        |(op, mode, cplx, mut data, inst, act, pool)| {
            data.exp = 0;
            Step { op, mode, cplx, data, inst, act, pool }
        },
    );
    // other bases, often of a size and kind close to the target's
    let entry = (select(&ALL_KINDS[..]), any::<u8>(), prec(), 0u8..4);
    let prelude = prop_oneof![
        39 => Just(None),
        1 => prop_oneof![3 => prop::collection::vec(entry.clone(), 1..8), 1 => prop::collection::vec(entry, 8..260)].prop_map(Some),
    ];
    (target, prop::collection::vec(step, 1..12), prelude)
        .prop_map(|(target, steps, prelude)| {
            let axes = match &target {
                Target::Base { kind, n, .. } => vec![(*kind, *n)],
                Target::Space(s) => s.axes.clone(),
            };
            let prelude = prelude.map(|v| {
                v.into_iter()
                    .map(|(k, r, p, how)| {
                        let (tk, tn) = axes[r as usize % axes.len()];
                        let (k, n) = match how {
                            0 => (tk, tn),
                            1 => (k, tn),
                            2 => (tk, 1 + r as usize / 2),
                            _ => (k, 1 + r as usize / 2),
                        };
                        (k, n.max(k.min_n()), p)
                    })
                    .collect()
            });
            Hist { target, steps, prelude }
        })
        .boxed()
}
pub static C12: Prop<Hist> = Prop {
    id: "C12",
    rule: "a base or space and a history of 1 to 11 calls (serial/parallel, allocating/in-place, fresh or already used output buffers, clones, several threads at once doing the same or different operations on one instance and its clones, several tasks of one work-stealing pool at once, pools of 1 to 33 workers, rarely tens of thousands of calls before); every result compared with a fresh instance's serial allocating call; in one case of 40 two more processes report grid, matrices and results of the steps, one of them after using up to 260 other bases of either precision, and must agree; non-trivial: at least two calls",
    cases: (96_000, 720_000),
    gen: g12,
    exec: c12,
    assumptions: &["thread schedules are those the operating system happens to produce"],
};

// ================================================================= C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SpaceCase {
    pub spec: SpaceSpec,
    pub op: Op,
    pub mode: Mode,
    pub cplx: bool,
    pub clone: bool,
    pub data: Data,
}

fn compose(spec: &SpaceSpec, op: Op, cplx: bool, x: &Arr) -> Arr {
    let bases = spec.bases();
    let nd = bases.len();
    let order: Vec<usize> = match op {
        Op::Forward => (0..nd).rev().collect(),
        _ => (0..nd).collect(),
    };
    let mut a = x.clone();
    for ax in order {
        let (k, n) = spec.axes[ax];
        let lo = op.lens(k, n).1;
        let junk = vec![GARBAGE; lo];
        let cx = spec.in_complex(op, cplx);
        let b = &bases[ax];
        a = match op {
            // complex values pass through a real-to-real base part by part
            Op::Forward | Op::Backward if k.is_r2r() => a.map_axis(ax, lo, |l| {
                let re: Vec<C64> = l.iter().map(|z| C64::new(z.re, 0.)).collect();
                let im: Vec<C64> = l.iter().map(|z| C64::new(z.im, 0.)).collect();
                let (r, i) = (b.slice(op, false, &re, &junk), b.slice(op, false, &im, &junk));
                r.iter().zip(&i).map(|(p, q)| C64::new(p.re, q.re)).collect()
            }),
            _ => a.map_axis(ax, lo, |l| b.slice(op, cx, l, &junk)),
        };
    }
    a
}

fn c13(c: &SpaceCase, ctx: &mut Ctx) -> Res {
    let spec = &c.spec;
    let mut sp = spec.build();
    if c.clone {
        sp = sp.clone_box();
    }
    let x = arr_of(&c.data, &spec.shape(c.op, false), spec.in_complex(c.op, c.cplx), spec.prec, 1);
    ctx.nontrivial = spec.axes.len() > 1 && x.data.iter().filter(|v| v.norm() != 0.).count() > 1;
    let t: Vec<String> = spec.axes.iter().map(|a| a.0.transform_name().into()).collect();
    ctx.label(format!("{} {}", t.join("x"), c.op.name()));
    let got = sp.op(c.op, c.cplx, c.mode, &x);
    let want = compose(spec, c.op, c.cplx, &x);
    let am: f64 = spec.axes.iter().map(|(k, n)| amp(c.op, *k, *n)).product();
    same(ctx, "space operation", &got, &want, 100. * spec.prec.eps() * am * x.max_abs())?;
    for (ax, b) in spec.bases().iter().enumerate() {
        let (k, n) = spec.axes[ax];
        let ms: &[Mat] = &[Mat::Stencil, Mat::StencilInv, Mat::Lap];
        let pin: &[Mat] = &[Mat::LapPinv, Mat::LapPeye];
        let with_pinv = k.is_fourier() || n > 2;
        for m in ms.iter().chain(if with_pinv { pin } else { &[] }) {
            let (g, w) = (sp.mat(ax, *m), b.mat(*m));
            ctx.check("axis matrix", g.r == w.r && g.c == w.c && g.a == w.a, || {
                format!("{spec:?} axis {ax} {m:?}")
            })?;
        }
    }
    Ok(())
}
fn g13(t: Tier, _s: usize) -> BoxedStrategy<SpaceCase> {
    let mx = t.pick([60, 18, 11], [200, 40, 16]);
    let spaces = prop_oneof![50 => space(0, mx), 1 => space(0, [1100, 150, 34])];
    (spaces, op4(), mode4(), any::<bool>(), any::<bool>(), any_data())
        .prop_map(|(spec, op, mode, cplx, clone, mut data)| {
            if spec.prec == Prec::F32 {
                data.exp = 0;
            }
            SpaceCase { spec, op, mode, cplx, clone, data }
        })
        .boxed()
}
pub static C13: Prop<SpaceCase> = Prop {
    id: "C13",
    rule: "a one-, two- or three-dimensional space over every supported base combination, one conversion in one of four calling variants; compared with the one-dimensional operations of the axes' own bases applied axis by axis, and every per-axis matrix with the base's; non-trivial: two or more dimensions and entries",
    cases: (480_000, 3_600_000),
    gen: g13,
    exec: c13,
    assumptions: &["the one-dimensional slice operations are judged on their own by C02 to C06"],
};

// ================================================================= C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GradCase {
    pub spec: SpaceSpec,
    pub deriv: Vec<u8>,
    /// scale per axis in 1/8, signed and non-zero
    pub scale: Option<Vec<i16>>,
    pub par: bool,
    pub cplx: bool,
    pub data: Data,
}
fn c14(c: &GradCase, ctx: &mut Ctx) -> Res {
    let spec = &c.spec;
    let sp = spec.build();
    let x = arr_of(&c.data, &spec.shape(Op::ToOrtho, false), spec.in_complex(Op::ToOrtho, c.cplx), spec.prec, 1);
    let cx = spec.in_complex(Op::ToOrtho, c.cplx);
    ctx.nontrivial = c.deriv.iter().any(|d| *d > 0) && x.data.iter().any(|v| v.norm() != 0.);
    ctx.label(format!(
        "{}D order{} {}",
        c.deriv.len(),
        c.deriv.iter().sum::<u8>(),
        if c.scale.is_some() { "scaled" } else { "plain" }
    ));
    let sc: Option<Vec<f64>> = c.scale.as_ref().map(|s| s.iter().map(|v| *v as f64 / 8.).collect());
    let f: f64 = sc.iter().flatten().zip(&c.deriv).map(|(s, d)| s.powi(*d as i32)).product();
    if spec.prec == Prec::F32 {
        // high orders of many points leave the range of single precision
        let top: f64 = (0..c.deriv.len()).map(|a| amp(Op::Gradient(c.deriv[a]), spec.axes[a].0, spec.axes[a].1)).product();
        if top * x.max_abs().max(1.) / f.abs().min(1.) > 1e36 {
            ctx.nontrivial = false;
            ctx.label("beyond single precision");
            return Ok(());
        }
    }
    let got = sp.gradient(&x, &c.deriv, sc.as_deref(), c.par, c.cplx);
    let bases = spec.bases();
    let mut want = x.clone();
    let mut am = 1.;
    for (ax, b) in bases.iter().enumerate() {
        let (k, n) = spec.axes[ax];
        let op = Op::Gradient(c.deriv[ax]);
        let lo = op.lens(k, n).1;
        am *= amp(op, k, n);
        want = want.map_axis(ax, lo, |l| b.slice(op, cx, l, &vec![GARBAGE; lo]));
    }
    if sc.is_some() {
        am /= f.abs();
        for v in &mut want.data {
            *v /= f;
        }
    }
    same(ctx, "gradient", &got, &want, 100. * spec.prec.eps() * am * x.max_abs())?;
    if let Some(f0) = got.data.iter().find(|v| !v.re.is_finite() || !v.im.is_finite()) {
        return fail("gradient finite", format!("{f0}"));
    }
    Ok(())
}
fn g14(t: Tier, _s: usize) -> BoxedStrategy<GradCase> {
    let mx = t.pick([60, 18, 11], [200, 40, 16]);
    let spaces = prop_oneof![50 => space(0, mx), 1 => space(0, [1100, 150, 34])];
    (spaces, prop::collection::vec(prop_oneof![15 => 0u8..=3, 1 => 4u8..=7], 3), any::<bool>(), prop::collection::vec(prop_oneof![12 => -40i16..=-1, 12 => 1i16..=40, 1 => 41i16..=8000], 3), any::<bool>(), any::<bool>(), any_data())
        .prop_map(|(spec, mut deriv, scaled, mut scale, par, cplx, mut data)| {
            data.exp = 0;
            deriv.truncate(spec.axes.len());
            scale.truncate(spec.axes.len());
            // one axis differentiated very often, where nothing overflows
            let a = data.seed as usize % spec.axes.len();
            if data.seed % 29 == 3 && spec.prec == Prec::F64 && spec.axes[a].1 <= 24 {
                deriv[a] = 8 + (data.seed / 29 % 33) as u8;
            }
            // the product of powers and its square stay within the float range
            let lim = if spec.prec == Prec::F32 { 14. } else { 100. };
            let mag = |d: &[u8], s: &[i16]| -> f64 {
                d.iter().zip(s).map(|(d, s)| *d as f64 * (*s as f64 / 8.).abs().log10().abs()).sum()
            };
            while mag(&deriv, &scale) > lim {
                scale.iter_mut().for_each(|s| *s = if *s > 0 { (*s / 4).max(1) } else { (*s / 4).min(-1) });
                deriv.iter_mut().for_each(|d| *d = (*d).min(5).max(1) - 1);
            }
            GradCase { spec, deriv, scale: scaled.then_some(scale), par, cplx, data }
        })
        .boxed()
}
pub static C14: Prop<GradCase> = Prop {
    id: "C14",
    rule: "a space, derivative orders 0..3 (occasionally up to 7, rarely up to 40) per axis, optional scale per axis (signed eighths), serial or parallel; compared with the axes' own one-dimensional derivatives applied in turn and divided by the product of scale^order; non-trivial: some order positive and data non-zero",
    cases: (960_000, 3_600_000),
    gen: g14,
    exec: c14,
    assumptions: &["the one-dimensional derivatives are judged on their own by C07", "scale^order stays below 1e14 in single and 1e100 in double precision (the library divides complex numbers, which squares the divisor)"],
};
