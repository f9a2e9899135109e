//! C22: everything a distributed space computes equals what the serial space
//! computes on the gathered field.
use crate::any::*;
use crate::case::{amp, arr_of, prec, same};
use crate::drive::{nprocs, rank};
use crate::mv::Mv;
use crate::pd::{layout2, window};
use crate::spaces::{AnySpace, SpaceSpec};
use crate::spm::{build, AnyMpi};
use fsv_core::data::any_data;
use fsv_core::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    /// distributed operation
    Op {
        op: Op,
        inplace: bool,
        data: Data,
        /// unusual operand layouts, on a single rank only: ranks could
        /// disagree about refusing them and wait for each other
        #[serde(default)]
        lay: Option<(Layout, Layout)>,
    },
    Grad { deriv: [u8; 2], scale: Option<[i8; 2]>, data: Data },
    /// data movement wrapper
    Move { mv: Mv, spec: bool, lay: (Layout, Layout), data: Data },
    /// scatter, forward, to and from orthogonal, backward, gather
    Chain { data: Data },
    /// operation every space offers, on a field this rank holds entirely
    Local { op: Op, mode: Mode, cplx: bool, data: Data },
    LocalGrad { deriv: [u8; 2], scale: Option<[i8; 2]>, par: bool, cplx: bool, data: Data },
    /// shapes, arrays handed out, per-axis matrices, kinds and grids
    Facts,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SpCase {
    pub np: usize,
    pub spec: SpaceSpec,
    pub acts: Vec<Act>,
    /// before these actions this rank (modulo their number) arrives late
    #[serde(default)]
    pub late: Vec<(u8, u8)>,
}

fn sh2(v: &[usize]) -> [usize; 2] {
    [v[0], v[1]]
}

struct Run<'a> {
    spec: &'a SpaceSpec,
    ser: Box<dyn AnySpace>,
}

impl Run<'_> {
    fn amp(&self, op: [Op; 2]) -> f64 {
        self.spec.axes.iter().zip(op).map(|((k, n), o)| amp(o, *k, *n)).product()
    }
    fn tol(&self, op: Op, x: &Arr) -> f64 {
        200. * self.spec.prec.eps() * self.amp([op, op]) * x.max_abs()
    }
    fn scale(&self, s: &Option<[i8; 2]>) -> Option<Vec<f64>> {
        s.map(|v| v.iter().map(|x| if *x == 0 { 1. } else { *x as f64 / 8. }).collect())
    }
    fn grad_tol(&self, deriv: [u8; 2], scale: &Option<Vec<f64>>, x: &Arr) -> f64 {
        let s = scale.as_ref().map_or(1., |s| {
            s.iter().zip(deriv).map(|(s, d)| s.abs().powi(d as i32)).product::<f64>()
        });
        let ops = deriv.map(Op::Gradient);
        200. * self.spec.prec.eps() * self.amp(ops) * x.max_abs() / s
    }
    fn field(&self, op: Op, cplx: bool, d: &Data) -> Arr {
        arr_of(d, &self.spec.shape(op, false), self.spec.in_complex(op, cplx), self.spec.prec, 1)
    }
    /// this rank's pencil of a global array
    fn cut(&self, m: &dyn AnyMpi, g: &Arr, axis: usize) -> Arr {
        let (p, _) = m.pens(sh2(&g.shape));
        window(g, p[axis].st, p[axis].sz)
    }

    fn act(&self, ctx: &mut Ctx, m: &dyn AnyMpi, a: &Act) -> Res {
        let (x, y) = (0, 1);
        match a {
            Act::Op { op, inplace, data, lay } => {
                ctx.label(op.name());
                let g = self.field(*op, false, data);
                let want = self.ser.op(*op, false, Mode::Alloc, &g);
                // physical fields live in y-pencils, coefficients in x-pencils
                let (pin, pout) = match op {
                    Op::Forward => (y, x),
                    Op::Backward => (x, y),
                    _ => (x, x),
                };
                let want = self.cut(m, &want, pout);
                let std = (Layout::Standard, Layout::Standard);
                let lay = lay.filter(|_| nprocs() == 1).unwrap_or(std);
                let src = self.cut(m, &g, pin);
                let got = if lay == std {
                    m.mop(*op, *inplace, &src, sh2(&want.shape), lay)
                } else {
                    ctx.label("layout");
                    match no_panic(|| m.mop(*op, *inplace, &src, sh2(&want.shape), lay)) {
                        Ok(g) => g,
                        Err(_) => return Ok(()),
                    }
                };
                same(ctx, op.name(), &got, &want, self.tol(*op, &g))
            }
            Act::Grad { deriv, scale, data } => {
                ctx.label("gradient");
                let g = self.field(Op::ToOrtho, false, data);
                let sc = self.scale(scale);
                let want = self.ser.gradient(&g, deriv, sc.as_deref(), false, false);
                let want = self.cut(m, &want, x);
                let got = m.mgradient(&self.cut(m, &g, x), deriv, sc.as_deref());
                same(ctx, "gradient", &got, &want, self.grad_tol(*deriv, &sc, &g))
            }
            Act::Move { mv, spec, lay, data } => {
                ctx.label(format!("{mv:?} {}", if *spec { "spectral" } else { "physical" }));
                let op = if *spec { Op::Backward } else { Op::Forward };
                let g = self.field(op, false, data);
                let whole = sh2(&g.shape);
                let root = rank() == 0;
                let (src, want) = match mv {
                    Mv::XtoY => (self.cut(m, &g, x), self.cut(m, &g, y)),
                    Mv::YtoX => (self.cut(m, &g, y), self.cut(m, &g, x)),
                    Mv::GatherX | Mv::AllX => (self.cut(m, &g, x), g.clone()),
                    Mv::GatherY | Mv::AllY => (self.cut(m, &g, y), g.clone()),
                    Mv::ScatterX => (g.clone(), self.cut(m, &g, x)),
                    Mv::ScatterY => (g.clone(), self.cut(m, &g, y)),
                    _ => unreachable!(),
                };
                let got = m.mmove(*mv, *spec, &src, sh2(&want.shape), *lay, root);
                match got {
                    None => ctx.check("gather elsewhere", !root, || String::new()),
                    Some(got) => ctx.check("moved field", got == want, || {
                        format!("{mv:?} spectral {spec} of {whole:?}: got {got:?} want {want:?}")
                    }),
                }
            }
            Act::Chain { data } => {
                ctx.label("chain");
                let g = self.field(Op::Forward, false, data);
                let std = (Layout::Standard, Layout::Standard);
                let root = rank() == 0;
                let shp = |sh: Vec<usize>, a: usize| m.pens(sh2(&sh)).0[a].sz;
                let [p, s, o] = self.ser.shapes();
                let yp = m.mmove(Mv::ScatterY, false, &g, shp(p.clone(), y), std, root).unwrap();
                let v = m.mop(Op::Forward, false, &yp, shp(s.clone(), x), std);
                let w = m.mop(Op::ToOrtho, true, &v, shp(o, x), std);
                let v2 = m.mop(Op::FromOrtho, false, &w, shp(s, x), std);
                let yp2 = m.mop(Op::Backward, true, &v2, shp(p.clone(), y), std);
                let got = m.mmove(Mv::AllY, false, &yp2, sh2(&p), std, root).unwrap();
                let f = |op: Op, a: &Arr| self.ser.op(op, false, Mode::Alloc, a);
                let sv = f(Op::Forward, &g);
                let sw = f(Op::ToOrtho, &sv);
                let want = f(Op::Backward, &f(Op::FromOrtho, &sw));
                let tol = 200.
                    * self.spec.prec.eps()
                    * self.amp([Op::Forward; 2])
                    * self.amp([Op::Backward; 2])
                    * self.amp([Op::FromOrtho; 2])
                    * 9.
                    * g.max_abs();
                same(ctx, "chain", &got, &want, tol)
            }
            Act::Local { op, mode, cplx, data } => {
                ctx.label(format!("local {}", op.name()));
                let g = self.field(*op, *cplx, data);
                let want = self.ser.op(*op, *cplx, Mode::Alloc, &g);
                let got = m.serial().op(*op, *cplx, *mode, &g);
                same(ctx, "local operation", &got, &want, self.tol(*op, &g))
            }
            Act::LocalGrad { deriv, scale, par, cplx, data } => {
                ctx.label("local gradient");
                let g = self.field(Op::ToOrtho, *cplx, data);
                let sc = self.scale(scale);
                let want = self.ser.gradient(&g, deriv, sc.as_deref(), false, *cplx);
                let got = m.serial().gradient(&g, deriv, sc.as_deref(), *par, *cplx);
                same(ctx, "local gradient", &got, &want, self.grad_tol(*deriv, &sc, &g))
            }
            Act::Facts => {
                ctx.label("facts");
                let s = m.serial();
                ctx.check("shapes", s.shapes() == self.ser.shapes(), || {
                    format!("{:?} vs {:?}", s.shapes(), self.ser.shapes())
                })?;
                ctx.check("ids", m.ids() == [nprocs(), rank()], || format!("{:?}", m.ids()))?;
                ctx.check("global arrays", s.fresh() == self.ser.fresh(), || "ndarray_physical/spectral".into())?;
                let [p, sp, o] = s.shapes();
                let (ps, ss, fr) = (m.pen_shapes(), self.ser.shapes(), m.fresh_pens());
                for (k, (g, ax)) in [(&ss[0], x), (&ss[0], y), (&ss[1], x), (&ss[1], y)].into_iter().enumerate() {
                    let (pen, _) = m.pens(sh2(g));
                    let ok = ps[k] == pen[ax].sz && fr[k] == Arr::filled(&pen[ax].sz, C64::new(0., 0.));
                    ctx.check("pencil shapes and arrays", ok, || format!("{k}: {:?} {:?} {:?}", ps[k], pen[ax], fr[k]))?;
                }
                for g in [&p, &sp, &o, &vec![p[0], sp[1]], &vec![sp[0], p[1]], &vec![o[0], sp[1]], &vec![sp[0], o[1]]] {
                    let (pen, id) = m.pens(sh2(g));
                    ctx.check("decomposition", id == [nprocs(), rank(), g[0], g[1]], || format!("{g:?} -> {id:?}"))?;
                    ctx.check("whole axes", pen[0].sz[0] == g[0] && pen[1].sz[1] == g[1], || format!("{g:?} -> {pen:?}"))?;
                }
                ctx.check("coordinates", s.coords() == self.ser.coords(), || "coords".into())?;
                for a in 0..2 {
                    ctx.check("axis coordinates", s.coords_axis(a) == self.ser.coords_axis(a), || format!("axis {a}"))?;
                    ctx.check("kinds", s.kind_dbg(a) == self.ser.kind_dbg(a) && s.transform_dbg(a) == self.ser.transform_dbg(a), || {
                        format!("axis {a}: {} {}", s.kind_dbg(a), s.transform_dbg(a))
                    })?;
                    let mut mats = vec![Mat::Stencil, Mat::StencilInv, Mat::Lap];
                    if !self.spec.axes[a].0.is_fourier() {
                        mats.extend([Mat::LapPinv, Mat::LapPeye]);
                    }
                    for k in mats {
                        let (g, w) = (no_panic(|| s.mat(a, k)), no_panic(|| self.ser.mat(a, k)));
                        let ok = match (&g, &w) {
                            (Ok(g), Ok(w)) => g.r == w.r && g.c == w.c && g.a == w.a,
                            (Err(_), Err(_)) => true,
                            _ => false,
                        };
                        ctx.check("axis matrix", ok, || format!("{k:?} axis {a}"))?;
                    }
                }
                Ok(())
            }
        }
    }
}

fn c22(c: &SpCase, ctx: &mut Ctx) -> Res {
    assert_eq!(c.np, nprocs(), "case for another number of ranks");
    ctx.label(format!("{} ranks", c.np));
    ctx.label(format!("{:?} x {:?}", c.spec.axes[0].0, c.spec.axes[1].0));
    ctx.nontrivial = c.np > 1 && c.acts.iter().any(|a| !matches!(a, Act::Facts | Act::Local { .. } | Act::LocalGrad { .. }));
    let m = build(&c.spec);
    let m2 = m.mclone();
    let r = Run {
        spec: &c.spec,
        ser: c.spec.build(),
    };
    for (i, a) in c.acts.iter().enumerate() {
        if c.late.iter().any(|(a, l)| *a as usize == i && *l as usize % c.np == rank()) {
            let long = c.late.iter().any(|(_, l)| *l >= 64);
            std::thread::sleep(std::time::Duration::from_micros(if long { 4000 } else { 300 }));
        }
        r.act(ctx, if i % 3 == 2 { &*m2 } else { &*m }, a)?;
    }
    Ok(())
}

fn g22(t: Tier, shard: usize) -> BoxedStrategy<SpCase> {
    let np = shard + 1;
    let extra = t.pick(14usize, 40);
    // every extent that is ever split holds at least one point per rank
    let axis = move |ks: &'static [Kind]| {
        select(ks).prop_flat_map(move |k| {
            let mut lo = k.min_n();
            while k.len_spec(lo).min(k.len_orth(lo)) < np {
                lo += 1;
            }
            (Just(k), prop_oneof![20 => lo..=lo + 3, 30 => lo..=lo + extra, 1 => lo..=lo + 120])
        })
    };
    let spec = prop_oneof![
        3 => (axis(&R2R), axis(&R2R)),
        2 => (axis(&[Kind::R2c]), axis(&R2R)),
        1 => (axis(&[Kind::C2c]), axis(&[Kind::R2c])),
        1 => (axis(&[Kind::C2c]), axis(&[Kind::C2c])),
    ];
    let op = || {
        prop_oneof![
            3 => Just(Op::Forward),
            3 => Just(Op::Backward),
            2 => Just(Op::ToOrtho),
            2 => Just(Op::FromOrtho),
        ]
    };
    let deriv = || [0u8..=3, 0u8..=3];
    let one = || prop_oneof![6 => 1i8..=40, 1 => -40i8..=-1];
    let scale = move || prop::option::of([one(), one()]);
    let mv = select(vec![
        Mv::XtoY,
        Mv::YtoX,
        Mv::GatherX,
        Mv::GatherY,
        Mv::ScatterX,
        Mv::ScatterY,
        Mv::AllX,
        Mv::AllY,
    ]);
    let act = prop_oneof![
        6 => (op(), any::<bool>(), any_data(), prop::option::weighted(0.3, (layout2(), layout2())))
            .prop_map(|(op, inplace, data, lay)| Act::Op { op, inplace, data, lay }),
        3 => (deriv(), scale(), any_data()).prop_map(|(deriv, scale, data)| Act::Grad { deriv, scale, data }),
        4 => (mv, any::<bool>(), (layout2(), layout2()), any_data())
            .prop_map(|(mv, spec, lay, data)| Act::Move { mv, spec, lay, data }),
        1 => any_data().prop_map(|data| Act::Chain { data }),
        1 => (op(), crate::case::mode4(), any::<bool>(), any_data())
            .prop_map(|(op, mode, cplx, data)| Act::Local { op, mode, cplx, data }),
        1 => (deriv(), scale(), any::<bool>(), any::<bool>(), any_data())
            .prop_map(|(deriv, scale, par, cplx, data)| Act::LocalGrad { deriv, scale, par, cplx, data }),
        1 => Just(Act::Facts),
    ];
    let late = prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec((0u8..6, prop_oneof![19 => 0u8..16, 1 => 64u8..80]), 1..3)];
    (spec, prec(), prop::collection::vec(act, 1..=6), late)
        .prop_map(move |((a, b), prec, mut acts, late)| {
            if prec == Prec::F32 {
                for a in &mut acts {
                    match a {
                        Act::Op { data, .. }
                        | Act::Grad { data, .. }
                        | Act::Move { data, .. }
                        | Act::Chain { data }
                        | Act::Local { data, .. }
                        | Act::LocalGrad { data, .. } => data.exp = 0,
                        Act::Facts => {}
                    }
                }
            }
            SpCase {
                np,
                spec: SpaceSpec {
                    axes: vec![a, b],
                    prec,
                },
                acts,
                late,
            }
        })
        .boxed()
}

pub static C22: Prop<SpCase> = Prop {
    id: "C22",
    rule: "on 1 to 8 (some on 11 or 16) MPI ranks, a two-dimensional distributed space over every supported base combination and a history of up to six distributed transforms, conversions, gradients, data movements, whole chains and rank-local operations, sometimes with a rank arriving late (on a single rank also operands in unusual memory layouts, to be refused or treated right); every rank compares what it gets with its window of the serial space's result; non-trivial: more than one rank and at least one distributed operation",
    cases: (24_000, 400_000),
    gen: g22,
    exec: c22,
    assumptions: &[
        "every extent that is split (physical, spectral, orthogonal) holds at least one point per process",
        "the serial spaces are judged by C13 and C14",
        "the installed Open MPI delivers what it is asked to deliver",
    ],
};
