//! C21: data movement between pencils, global arrays and ranks against a
//! model that knows the global array. C23: scalar collectives.
use crate::any::{from_nd, Arr, Layout, Sc, Store, C64, GARBAGE};
use crate::drive::{nprocs, rank, uni};
use crate::pd::{layout2, validate, window};
use fsv_core::*;
use funspace::space_mpi::{all_gather_sum, broadcast_scalar, gather_sum, Decomp2d, DecompHandler, Equivalence};
use ndarray::{Array2, Ix2};
use num_complex::Complex;
use num_traits::Zero;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

macro_rules! int_sc {
    ($($t:ty),*) => {$(
        impl Sc for $t {
            fn from_c(c: C64) -> $t { c.re as i64 as $t }
            fn to_c(self) -> C64 { C64::new(self as f64, 0.) }
        }
    )*};
}
int_sc!(i16, i32, i64, u8, u64);

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Ty {
    F64,
    F32,
    C64,
    C32,
    I16,
    I32,
    I64,
    U8,
    U64,
}
pub fn ty() -> BoxedStrategy<Ty> {
    select(vec![
        Ty::F64,
        Ty::F64,
        Ty::F32,
        Ty::C64,
        Ty::C64,
        Ty::C32,
        Ty::I16,
        Ty::I32,
        Ty::I64,
        Ty::U8,
        Ty::U64,
    ])
    .boxed()
}
macro_rules! for_ty {
    ($ty:expr, $f:ident ( $($a:expr),* )) => {
        match $ty {
            Ty::F64 => $f::<f64>($($a),*),
            Ty::F32 => $f::<f32>($($a),*),
            Ty::C64 => $f::<Complex<f64>>($($a),*),
            Ty::C32 => $f::<Complex<f32>>($($a),*),
            Ty::I16 => $f::<i16>($($a),*),
            Ty::I32 => $f::<i32>($($a),*),
            Ty::I64 => $f::<i64>($($a),*),
            Ty::U8 => $f::<u8>($($a),*),
            Ty::U64 => $f::<u64>($($a),*),
        }
    };
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Mv {
    SplitX,
    SplitY,
    XtoY,
    YtoX,
    GatherX,
    GatherY,
    ScatterX,
    ScatterY,
    AllX,
    AllY,
    /// operands of a wrong shape, or the wrong role
    Refuse(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    /// which domain
    pub d: usize,
    pub mv: Mv,
    pub lay_in: Layout,
    pub lay_out: Layout,
    /// allocating or in-place form, on root and elsewhere
    pub alt: [bool; 2],
    /// parts of a new field that are zero
    #[serde(default)]
    pub holes: u8,
    /// targets start as zeros instead of junk
    #[serde(default)]
    pub clean: bool,
    /// this rank (modulo their number) arrives late
    #[serde(default)]
    pub late: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MvCase {
    pub np: usize,
    pub ty: Ty,
    pub doms: Vec<[usize; 2]>,
    /// decompositions come from a handler (true) or stand alone
    pub handler: bool,
    pub steps: Vec<Step>,
}

pub trait El: Sc + Zero + Equivalence + Debug + PartialEq {}
impl<T: Sc + Zero + Equivalence + Debug + PartialEq> El for T {}

/// model of one domain: what the union of pencils holds, and what this rank holds
struct Dom {
    n: [usize; 2],
    gx: Arr,
    gy: Arr,
    px: Arr,
    py: Arr,
}

struct Op<'a> {
    st: &'a Step,
    dcp: &'a Decomp2d<'a>,
}

impl Op<'_> {
    fn what(&self) -> String {
        format!("{:?} on {:?}", self.st.mv, self.dcp.n_global)
    }
    /// run `f` on stored operands; returns the result and checks the input survived
    fn io<T: El>(
        &self,
        ctx: &mut Ctx,
        input: &Arr,
        out: &[usize; 2],
        f: impl FnOnce(&ndarray::ArrayView2<T>, &mut ndarray::ArrayViewMut2<T>),
    ) -> Result<Arr, Fail> {
        let src = Store::<T>::new(input, self.st.lay_in);
        let before = if self.st.clean { C64::new(0., 0.) } else { GARBAGE };
        let mut dst = Store::<T>::new(&Arr::filled(out, before), self.st.lay_out);
        let got = {
            let v = src.view().into_dimensionality::<Ix2>().unwrap();
            let mut w = dst.view_mut().into_dimensionality::<Ix2>().unwrap();
            f(&v, &mut w);
            from_nd(&w.to_owned())
        };
        let after = from_nd(&src.view().to_owned());
        ctx.check("input unchanged", after == *input, || format!("{}: {input:?} -> {after:?}", self.what()))?;
        Ok(got)
    }
    fn eq(&self, ctx: &mut Ctx, got: &Arr, want: &Arr) -> Res {
        ctx.comparisons += got.data.len() as u64;
        ctx.check("moved data", got == want, || {
            let at = got.data.iter().zip(&want.data).position(|(a, b)| a != b);
            format!(
                "{} ({:?}): shape {:?} want {:?}, first difference at {at:?}: got {:?} want {:?}",
                self.what(),
                self.st,
                got.shape,
                want.shape,
                at.map(|i| got.data[i]),
                at.map(|i| want.data[i])
            )
        })
    }
    fn refused(&self, ctx: &mut Ctx, k: &str, f: impl FnOnce()) -> Res {
        let r = no_panic(f);
        ctx.check("refused", r.is_err(), || format!("{} {k}: accepted", self.what()))
    }
}

fn step<T: El>(ctx: &mut Ctx, st: &Step, dcp: &Decomp2d, m: &mut Dom, fresh: Arr) -> Res {
    let o = Op { st, dcp };
    let me = rank();
    let (xs, ys) = (dcp.x_pencil.sz, dcp.y_pencil.sz);
    let slx = |g: &Arr| window(g, dcp.x_pencil.st, xs);
    let sly = |g: &Arr| window(g, dcp.y_pencil.st, ys);
    let fresh_t = |f: &Arr| Arr::new(&f.shape, f.data.iter().map(|c| T::from_c(*c).to_c()).collect());
    let fresh = fresh_t(&fresh);
    match st.mv {
        Mv::SplitX => {
            let src = Store::<T>::new(&fresh, st.lay_in);
            let v = src.view().into_dimensionality::<Ix2>().unwrap();
            let got: Array2<T> = dcp.split_array_x_pencil(&v);
            m.px = from_nd(&got);
            m.gx = fresh;
            o.eq(ctx, &m.px, &slx(&m.gx))
        }
        Mv::SplitY => {
            let src = Store::<T>::new(&fresh, st.lay_in);
            let v = src.view().into_dimensionality::<Ix2>().unwrap();
            let got: Array2<T> = dcp.split_array_y_pencil(&v);
            m.py = from_nd(&got);
            m.gy = fresh;
            o.eq(ctx, &m.py, &sly(&m.gy))
        }
        Mv::XtoY => {
            m.py = o.io::<T>(ctx, &m.px, &ys, |a, b| dcp.transpose_x_to_y(a, b))?;
            m.gy = m.gx.clone();
            o.eq(ctx, &m.py, &sly(&m.gy))
        }
        Mv::YtoX => {
            m.px = o.io::<T>(ctx, &m.py, &xs, |a, b| dcp.transpose_y_to_x(a, b))?;
            m.gx = m.gy.clone();
            o.eq(ctx, &m.px, &slx(&m.gx))
        }
        Mv::GatherX | Mv::GatherY => {
            let x = st.mv == Mv::GatherX;
            let (held, want) = if x { (&m.px, &m.gx) } else { (&m.py, &m.gy) };
            if me == 0 {
                let got = if st.alt[0] {
                    let src = Store::<T>::new(held, st.lay_in);
                    let v = src.view().into_dimensionality::<Ix2>().unwrap();
                    let g: Array2<T> = if x { dcp.gather_x_root(&v) } else { dcp.gather_y_root(&v) };
                    from_nd(&g)
                } else {
                    o.io::<T>(ctx, held, &m.n, |a, b| {
                        if x {
                            dcp.gather_x_inplace_root(a, b)
                        } else {
                            dcp.gather_y_inplace_root(a, b)
                        }
                    })?
                };
                o.eq(ctx, &got, want)
            } else {
                let src = Store::<T>::new(held, st.lay_in);
                let v = src.view().into_dimensionality::<Ix2>().unwrap();
                if x {
                    dcp.gather_x(&v)
                } else {
                    dcp.gather_y(&v)
                }
                Ok(())
            }
        }
        Mv::ScatterX | Mv::ScatterY => {
            let x = st.mv == Mv::ScatterX;
            let sh = if x { xs } else { ys };
            let got = if me == 0 {
                if st.alt[0] {
                    let src = Store::<T>::new(&fresh, st.lay_in);
                    let v = src.view().into_dimensionality::<Ix2>().unwrap();
                    let g: Array2<T> = if x { dcp.scatter_x_root(&v) } else { dcp.scatter_y_root(&v) };
                    from_nd(&g)
                } else {
                    o.io::<T>(ctx, &fresh, &sh, |a, b| {
                        if x {
                            dcp.scatter_x_inplace_root(a, b)
                        } else {
                            dcp.scatter_y_inplace_root(a, b)
                        }
                    })?
                }
            } else if st.alt[1] {
                let g: Array2<T> = if x { dcp.scatter_x() } else { dcp.scatter_y() };
                from_nd(&g)
            } else {
                // nothing is sent from here: the input is a stand-in
                o.io::<T>(ctx, &fresh, &sh, |_, b| {
                    if x {
                        dcp.scatter_x_inplace(b)
                    } else {
                        dcp.scatter_y_inplace(b)
                    }
                })?
            };
            if x {
                m.gx = fresh;
                m.px = got;
                o.eq(ctx, &m.px, &slx(&m.gx))
            } else {
                m.gy = fresh;
                m.py = got;
                o.eq(ctx, &m.py, &sly(&m.gy))
            }
        }
        Mv::AllX => {
            let got = o.io::<T>(ctx, &m.px, &m.n, |a, b| dcp.all_gather_x(a, b))?;
            o.eq(ctx, &got, &m.gx)
        }
        Mv::AllY => {
            let got = o.io::<T>(ctx, &m.py, &m.n, |a, b| dcp.all_gather_y(a, b))?;
            o.eq(ctx, &got, &m.gy)
        }
        Mv::Refuse(k) => {
            // every rank makes the same mistake, so no rank waits for another
            let z = |s: [usize; 2]| Array2::<T>::from_elem(s, T::from_c(GARBAGE));
            let up = |s: [usize; 2]| [s[0] + (k as usize / 8) % 2, s[1] + 1 - (k as usize / 8) % 2];
            match k % 8 {
                0 => o.refused(ctx, "x to y, wrong source", || dcp.transpose_x_to_y(&z(up(xs)), &mut z(ys))),
                1 => o.refused(ctx, "x to y, wrong target", || dcp.transpose_x_to_y(&z(xs), &mut z(up(ys)))),
                2 => o.refused(ctx, "y to x, wrong source", || dcp.transpose_y_to_x(&z(up(ys)), &mut z(xs))),
                3 => o.refused(ctx, "y to x, wrong target", || dcp.transpose_y_to_x(&z(ys), &mut z(up(xs)))),
                4 => {
                    o.refused(ctx, "all_gather_x", || dcp.all_gather_x(&z(up(xs)), &mut z(m.n)))?;
                    o.refused(ctx, "all_gather_x target", || dcp.all_gather_x(&z(xs), &mut z(up(m.n))))
                }
                5 => {
                    o.refused(ctx, "all_gather_y", || dcp.all_gather_y(&z(up(ys)), &mut z(m.n)))?;
                    o.refused(ctx, "all_gather_y target", || dcp.all_gather_y(&z(ys), &mut z(up(m.n))))
                }
                6 => {
                    if me == 0 {
                        o.refused(ctx, "gather_x_inplace_root", || dcp.gather_x_inplace_root(&z(up(xs)), &mut z(m.n)))?;
                        o.refused(ctx, "gather_y_inplace_root", || dcp.gather_y_inplace_root(&z(up(ys)), &mut z(m.n)))?;
                        o.refused(ctx, "scatter_x_inplace_root", || dcp.scatter_x_inplace_root(&z(up(m.n)), &mut z(xs)))?;
                        o.refused(ctx, "scatter_y_inplace_root", || dcp.scatter_y_inplace_root(&z(m.n), &mut z(up(ys))))
                    } else {
                        o.refused(ctx, "gather_x", || dcp.gather_x(&z(up(xs))))?;
                        o.refused(ctx, "gather_y", || dcp.gather_y(&z(up(ys))))?;
                        o.refused(ctx, "scatter_x_inplace", || dcp.scatter_x_inplace(&mut z(up(xs))))?;
                        o.refused(ctx, "scatter_y_inplace", || dcp.scatter_y_inplace(&mut z(up(ys))))
                    }
                }
                _ => {
                    if me == 0 {
                        o.refused(ctx, "gather_x on root", || dcp.gather_x(&z(xs)))?;
                        o.refused(ctx, "gather_y on root", || dcp.gather_y(&z(ys)))?;
                        o.refused(ctx, "scatter_x on root", || drop(dcp.scatter_x::<T>()))?;
                        o.refused(ctx, "scatter_y on root", || drop(dcp.scatter_y::<T>()))?;
                        o.refused(ctx, "scatter_x_inplace on root", || dcp.scatter_x_inplace(&mut z(xs)))?;
                        o.refused(ctx, "scatter_y_inplace on root", || dcp.scatter_y_inplace(&mut z(ys)))
                    } else {
                        o.refused(ctx, "gather_x_root", || drop(dcp.gather_x_root(&z(xs))))?;
                        o.refused(ctx, "gather_y_root", || drop(dcp.gather_y_root(&z(ys))))?;
                        o.refused(ctx, "gather_x_inplace_root", || dcp.gather_x_inplace_root(&z(xs), &mut z(m.n)))?;
                        o.refused(ctx, "gather_y_inplace_root", || dcp.gather_y_inplace_root(&z(ys), &mut z(m.n)))?;
                        o.refused(ctx, "scatter_x_root", || drop(dcp.scatter_x_root(&z(m.n))))?;
                        o.refused(ctx, "scatter_y_root", || drop(dcp.scatter_y_root(&z(m.n))))?;
                        o.refused(ctx, "scatter_x_inplace_root", || dcp.scatter_x_inplace_root(&z(m.n), &mut z(xs)))?;
                        o.refused(ctx, "scatter_y_inplace_root", || dcp.scatter_y_inplace_root(&z(m.n), &mut z(ys)))
                    }
                }
            }
        }
    }
}

/// data that names its own place: every element of a step is distinct,
/// except where it is zero
fn tags(n: [usize; 2], round: usize, holes: u8) -> Arr {
    Arr::new(
        &n,
        (0..n[0] * n[1])
            .map(|i| {
                let (r, c) = (i / n[1], i % n[1]);
                let zero = match holes {
                    1 => true,
                    2 => r >= n[0] / 2,
                    3 => r < n[0] / 2,
                    4 => c >= n[1] / 2,
                    5 => c < n[1] / 2,
                    6 => r + 1 == n[0] || c + 1 == n[1],
                    7 => r == 0 || c == 0,
                    8 => r + 1 < n[0] || c + 1 < n[1],
                    9 => r > 0 || c > 0,
                    10 => (r + c) % 2 == 0,
                    _ => false,
                };
                if zero {
                    return C64::new(0., 0.);
                }
                let t = (i + 1 + round * 997) as f64;
                C64::new(t, -t - 1.)
            })
            .collect(),
    )
}

fn moves<T: El>(c: &MvCase, ctx: &mut Ctx) -> Res {
    let u = uni();
    let me = rank();
    let mut h = DecompHandler::new(u);
    let own: Vec<Decomp2d> = c.doms.iter().map(|n| Decomp2d::new(u, *n)).collect();
    for d in &own {
        h.insert(d.clone());
        // a shape already known may be offered again
        h.insert(d.clone());
    }
    let h2 = h.clone();
    let mut doms = Vec::new();
    for (i, n) in c.doms.iter().enumerate() {
        let d = &own[i];
        validate(ctx, &d.x_pencil, *n, c.np, me, 0)?;
        validate(ctx, &d.y_pencil, *n, c.np, me, 1)?;
        ctx.check(
            "identity",
            d.nprocs as usize == c.np && d.nrank as usize == me && d.get_global_shape() == *n && d.n_global == *n,
            || format!("{d:?}"),
        )?;
        ctx.check(
            "pencil shapes",
            d.get_x_pencil_shape() == d.x_pencil.sz && d.get_y_pencil_shape() == d.y_pencil.sz,
            || format!("{d:?}"),
        )?;
        let l = h.get_decomp_from_global_shape(n);
        ctx.check(
            "handler lookup",
            l.n_global == *n && l.x_pencil.sz == d.x_pencil.sz && l.y_pencil.sz == d.y_pencil.sz,
            || format!("asked {n:?} got {l:?}"),
        )?;
        let g = tags(*n, 40 + i, c.steps[0].holes);
        let g = Arr::new(&g.shape, g.data.iter().map(|c| T::from_c(*c).to_c()).collect());
        doms.push(Dom {
            n: *n,
            px: window(&g, d.x_pencil.st, d.x_pencil.sz),
            py: window(&g, d.y_pencil.st, d.y_pencil.sz),
            gx: g.clone(),
            gy: g,
        });
    }
    let unknown = [c.doms.iter().map(|n| n[0]).max().unwrap() + 1, 1];
    let r = no_panic(|| h.get_decomp_from_global_shape(&unknown).n_global);
    ctx.check("unknown shape refused", r.is_err(), || format!("{unknown:?} -> {r:?}"))?;
    for (i, st) in c.steps.iter().enumerate() {
        let k = st.d % doms.len();
        let dcp = if c.handler {
            let h = if i % 2 == 0 { &h } else { &h2 };
            h.get_decomp_from_global_shape(&c.doms[k])
        } else {
            &own[k]
        };
        ctx.label(match st.mv {
            Mv::Refuse(_) => "Refuse".to_string(),
            m => format!("{m:?}"),
        });
        if let Some(l) = st.late.filter(|l| *l as usize % c.np == me) {
            // mostly long enough for the others' messages, sometimes for their next step
            std::thread::sleep(std::time::Duration::from_micros(if l < 64 { 300 } else { 4000 }));
        }
        if st.late.is_some() {
            ctx.label("late rank");
        }
        if (1..=10).contains(&st.holes) {
            ctx.label("zeros");
        }
        step::<T>(ctx, st, dcp, &mut doms[k], tags(c.doms[k], i, st.holes))?;
    }
    Ok(())
}

fn c21(c: &MvCase, ctx: &mut Ctx) -> Res {
    assert_eq!(c.np, nprocs(), "case for another number of ranks");
    ctx.nontrivial = c.np > 1 && c.steps.iter().any(|s| !matches!(s.mv, Mv::Refuse(_)));
    ctx.label(format!("{} ranks", c.np));
    for_ty!(c.ty, moves(c, ctx))
}

fn g21(t: Tier, shard: usize) -> BoxedStrategy<MvCase> {
    let np = shard + 1;
    let big = t.pick(40usize, 90);
    let ext = prop_oneof![12 => np..=np + 4, 12 => np..=20.max(np), 4 => np..=big, 1 => np..=200, 4 => (1usize..=3).prop_map(move |k| np * k)];
    let mv = prop_oneof![
        1 => Just(Mv::SplitX),
        1 => Just(Mv::SplitY),
        4 => Just(Mv::XtoY),
        4 => Just(Mv::YtoX),
        2 => Just(Mv::GatherX),
        2 => Just(Mv::GatherY),
        2 => Just(Mv::ScatterX),
        2 => Just(Mv::ScatterY),
        2 => Just(Mv::AllX),
        2 => Just(Mv::AllY),
        1 => (0u8..16).prop_map(Mv::Refuse),
    ];
    let quirks = (prop_oneof![2 => Just(0u8), 1 => 1u8..=10], any::<bool>(), prop::option::weighted(0.1, prop_oneof![19 => 0u8..16, 1 => 64u8..80]));
    let again = prop::bool::weighted(0.2);
    let st = (0usize..3, mv, layout2(), layout2(), any::<[bool; 2]>(), quirks, again).prop_map(
        |(d, mv, lay_in, lay_out, alt, (holes, clean, late), again)| {
            (again, Step { d, mv, lay_in, lay_out, alt, holes, clean, late })
        },
    );
    // domains of many thousand points
    let large = [(np.max(120)..=700).boxed(), (np.max(120)..=420).boxed()];
    let doms = prop_oneof![
        300 => prop::collection::vec([ext.clone().boxed(), ext.boxed()], 1..=3),
        1 => large.prop_map(|d| vec![d]),
    ];
    (ty(), doms, any::<bool>(), prop::collection::vec(st, 1..=10))
        .prop_map(move |(ty, doms, handler, steps)| {
            let mut steps: Vec<Step> = steps
                .into_iter()
                .scan(None, |last: &mut Option<(usize, Mv)>, (again, mut s)| {
                    // the same movement twice in a row
                    if let (true, Some((d, mv))) = (again, *last) {
                        (s.d, s.mv) = (d, mv);
                    }
                    *last = Some((s.d, s.mv));
                    Some(s)
                })
                .collect();
            if doms[0][0] * doms[0][1] > 40_000 {
                steps.truncate(4);
            }
            (ty, doms, handler, steps)
        })
        .prop_map(move |(ty, doms, handler, steps)| MvCase {
            np,
            ty,
            doms,
            handler,
            steps,
        })
        .boxed()
}

pub static C21: Prop<MvCase> = Prop {
    id: "C21",
    rule: "on 1 to 8 (some on 11 or 16) MPI ranks, one to three domains (one in 300 of some hundred thousand points) and a history of up to ten splits, transposes, gathers, scatters and all-gathers on operands of several memory layouts and nine element types (parts of a field may be zero, targets hold junk or zeros, a rank may arrive late); every rank compares what it holds with its window of a model of the global array, bit for bit; non-trivial: more than one rank and at least one movement",
    cases: (24_000, 400_000),
    gen: g21,
    exec: c21,
    assumptions: &[
        "every split extent holds at least one point per process",
        "the installed Open MPI delivers what it is asked to deliver; message timing is whatever the operating system schedules",
    ],
};

// ================================================================= C23

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Coll {
    Bcast,
    Sum,
    AllSum,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CollCase {
    pub np: usize,
    pub ty: Ty,
    pub steps: Vec<(Coll, Data)>,
    /// (step, rank) pairs that arrive late
    #[serde(default)]
    pub late: Vec<(u8, u8)>,
}

fn scalars<T: El + std::iter::Sum>(c: &CollCase, ctx: &mut Ctx, eps: f64) -> Res {
    let (u, me) = (uni(), rank());
    for (k, (op, data)) in c.steps.iter().enumerate() {
        if let Some((_, l)) = c.late.iter().find(|(s, l)| *s as usize == k && *l as usize % c.np == me) {
            ctx.label("late rank");
            std::thread::sleep(std::time::Duration::from_micros(if *l < 64 { 300 } else { 4000 }));
        }
        let unsigned = T::from_c(C64::new(-1., 0.)).to_c().re > 0.;
        let mut re = data.expand(c.np, 2);
        if unsigned {
            re.iter_mut().for_each(|x| *x = x.abs());
        }
        let im = data.expand(c.np, 3);
        let vals: Vec<C64> = (0..c.np).map(|i| T::from_c(C64::new(re[i], im[i])).to_c()).collect();
        let mine = T::from_c(vals[me]);
        let junk = T::from_c(GARBAGE);
        ctx.label(format!("{op:?}"));
        let what = format!("step {k} {op:?} of {vals:?} on rank {me}");
        let sum: C64 = vals.iter().sum();
        let mag: f64 = vals.iter().map(|v| v.norm()).sum();
        // integers of small magnitude add up exactly in every type
        let tol = 4. * c.np as f64 * eps * mag;
        match op {
            Coll::Bcast => {
                let mut x = mine;
                broadcast_scalar(u, &mut x);
                ctx.check("broadcast", x.to_c() == vals[0], || format!("{what}: got {:?}", x.to_c()))?;
            }
            Coll::Sum => {
                let (x, mut r) = (mine, junk);
                gather_sum(u, &x, &mut r);
                ctx.check("argument unchanged", x == mine, || what.clone())?;
                if me == 0 {
                    ctx.closec("gather_sum", 0, r.to_c(), sum, tol)?;
                } else {
                    ctx.check("result elsewhere unchanged", r == junk, || format!("{what}: got {:?}", r.to_c()))?;
                }
            }
            Coll::AllSum => {
                let (x, mut r) = (mine, junk);
                all_gather_sum(u, &x, &mut r);
                ctx.check("argument unchanged", x == mine, || what.clone())?;
                ctx.closec("all_gather_sum", 0, r.to_c(), sum, tol)?;
            }
        }
    }
    Ok(())
}

fn c23(c: &CollCase, ctx: &mut Ctx) -> Res {
    assert_eq!(c.np, nprocs(), "case for another number of ranks");
    ctx.nontrivial = c.np > 1;
    ctx.label(format!("{} ranks", c.np));
    let eps = match c.ty {
        Ty::F64 | Ty::C64 => f64::EPSILON,
        Ty::F32 | Ty::C32 => f32::EPSILON as f64,
        _ => 0.,
    };
    for_ty!(c.ty, scalars(c, ctx, eps))
}

fn g23(_t: Tier, shard: usize) -> BoxedStrategy<CollCase> {
    let np = shard + 1;
    ty().prop_flat_map(move |ty| {
        let data = match ty {
            Ty::F64 | Ty::C64 => data::any_data(),
            Ty::F32 | Ty::C32 => data::any_data()
                .prop_map(|mut d| {
                    d.exp = 0;
                    d
                })
                .boxed(),
            _ => data::any_data()
                .prop_map(|mut d| {
                    d.exp = 0;
                    d.kind = DataKind::Ints;
                    d
                })
                .boxed(),
        };
        let op = select(vec![Coll::Bcast, Coll::Sum, Coll::AllSum]);
        let late = prop_oneof![
            4 => Just(vec![]),
            1 => prop::collection::vec((0u8..8, prop_oneof![19 => 0u8..16, 1 => 64u8..80]), 1..3),
        ];
        (prop::collection::vec((op, data), 1..=8), late).prop_map(move |(steps, late)| CollCase { np, ty, steps, late })
    })
    .boxed()
}

pub static C23: Prop<CollCase> = Prop {
    id: "C23",
    rule: "on 1 to 8 (some on 11 or 16) MPI ranks, a history of broadcasts and sums over nine element types with values derived from the case, sometimes with a rank arriving late; compared on every rank with the value of rank 0 or the sum; non-trivial: more than one rank",
    cases: (48_000, 800_000),
    gen: g23,
    exec: c23,
    assumptions: &["the installed Open MPI delivers what it is asked to deliver"],
};
