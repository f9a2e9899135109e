//! Algebraic relations, rejection of malformed operands, helper functions,
//! and end-to-end differentiation of sampled functions.
use crate::any::*;
use crate::case::*;
use crate::refs::*;
use crate::spaces::*;
use fsv_core::data::{any_data, dense_data, size};
use fsv_core::*;
use ndarray::{ArrayD, IxDyn};
use num_complex::Complex;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

fn amp(op: &SOp, s: &SpaceSpec) -> f64 {
    s.axes
        .iter()
        .enumerate()
        .map(|(i, (k, n))| {
            let nf = *n as f64;
            let bc = nf.powi(k.nbc() as i32 / 2);
            match op {
                SOp::Op(Op::Forward) if k.is_fourier() => nf,
                SOp::Op(Op::Forward) => 4. * bc,
                SOp::Op(Op::Backward) if k.is_fourier() => 2.,
                SOp::Op(Op::Backward) => 3. * nf,
                SOp::Op(Op::FromOrtho) => 2. * bc,
                SOp::Op(_) => 3.,
                SOp::Grad(d) if k.is_fourier() => nf.powi(d[i] as i32),
                SOp::Grad(d) => 3. * nf.powi(2 * d[i] as i32),
            }
        })
        .product()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    Op(Op),
    Grad(Vec<u8>),
}
impl SOp {
    fn shape_op(&self) -> Op {
        match self {
            SOp::Op(o) => *o,
            SOp::Grad(_) => Op::ToOrtho,
        }
    }
    fn run(&self, sp: &dyn AnySpace, cplx: bool, mode: Mode, x: &Arr) -> Arr {
        match self {
            SOp::Op(o) => sp.op(*o, cplx, mode, x),
            SOp::Grad(d) => sp.gradient(x, d, None, mode == Mode::AllocPar || mode == Mode::InplacePar, cplx),
        }
    }
    fn name(&self) -> &'static str {
        match self {
            SOp::Op(o) => o.name(),
            SOp::Grad(_) => "gradient",
        }
    }
}

// ================================================================= C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lin {
    pub spec: SpaceSpec,
    pub op: SOp,
    pub mode: Mode,
    pub cplx: bool,
    pub x: Data,
    pub y: Data,
    /// factors in 1/4: (re, im) each
    pub a: (i8, i8),
    pub b: (i8, i8),
    /// exponent of the factor of the homogeneity test, 0: none
    #[serde(default)]
    pub pow: i16,
    /// a matrix of this order in single against double precision as well
    #[serde(default)]
    pub mat: u8,
}

fn c15(c: &Lin, ctx: &mut Ctx) -> Res {
    let s = &c.spec;
    let p = s.prec;
    let sp = s.build();
    let so = c.op.shape_op();
    let cx = s.in_complex(so, c.cplx);
    let shape = s.shape(so, false);
    let len = shape.iter().product();
    let x = Arr::new(&shape, values(&c.x, len, cx, p, 1));
    let y = Arr::new(&shape, values(&c.y, len, cx, p, 2));
    ctx.label(format!("{}D {} {:?}", s.axes.len(), c.op.name(), p));
    ctx.nontrivial = x.max_abs() > 0. && y.max_abs() > 0. && c.a != (0, 0) && c.b != (0, 0);
    // complex factors only where both sides are complex vector spaces
    let real_only = !cx || (s.axes.iter().any(|a| a.0 == Kind::R2c) && matches!(c.op, SOp::Op(Op::Forward | Op::Backward)));
    let f = |v: (i8, i8)| C64::new(v.0 as f64 / 4., if real_only { 0. } else { v.1 as f64 / 4. });
    let (a, b) = (f(c.a), f(c.b));
    let z = Arr::new(
        &shape,
        x.data.iter().zip(&y.data).map(|(p1, q)| p.roundc(a * p1 + b * q)).collect(),
    );
    let (fx, fy, fz) = (
        c.op.run(&*sp, c.cplx, c.mode, &x),
        c.op.run(&*sp, c.cplx, c.mode, &y),
        c.op.run(&*sp, c.cplx, c.mode, &z),
    );
    let am = amp(&c.op, s);
    let tol = 60. * p.eps() * am * (a.norm() * x.max_abs() + b.norm() * y.max_abs());
    for i in 0..fz.data.len() {
        ctx.closec("linearity", i, fz.data[i], a * fx.data[i] + b * fy.data[i], tol)?;
    }
    let zero = Arr::filled(&shape, ZERO);
    let fzero = c.op.run(&*sp, c.cplx, c.mode, &zero);
    ctx.check("zero maps to zero", fzero.data.iter().all(|v| *v == ZERO), || format!("{s:?}"))?;
    // magnitudes far from one: a power of two goes through exactly or nearly so
    if c.pow != 0 {
        ctx.label(if c.pow > 0 { "huge" } else { "tiny" });
        let sc = 2f64.powi(c.pow as i32);
        let w = Arr::new(&shape, x.data.iter().map(|v| v * sc).collect());
        let fw = c.op.run(&*sp, c.cplx, c.mode, &w);
        let t = 60. * p.eps() * am * x.max_abs();
        for k in 0..fx.data.len() {
            ctx.closec("homogeneity", k, fw.data[k] / sc, fx.data[k], t)?;
        }
    }
    // complex coefficients over real bases: parts are independent
    if cx && !s.spec_complex() {
        ctx.label("parts");
        let part = |im: bool| {
            let d = x.data.iter().map(|v| C64::new(if im { v.im } else { v.re }, 0.)).collect();
            c.op.run(&*sp, false, c.mode, &Arr::new(&shape, d))
        };
        let (r, i) = (part(false), part(true));
        let t = 60. * p.eps() * am * x.max_abs();
        for k in 0..fx.data.len() {
            ctx.closec("real and imaginary part", k, fx.data[k], C64::new(r.data[k].re, i.data[k].re), t)?;
        }
    }
    // single against double precision
    if p == Prec::F32 {
        ctx.label("precision");
        let hi = SpaceSpec { prec: Prec::F64, ..s.clone() }.build();
        let h = c.op.run(&*hi, c.cplx, c.mode, &x);
        let t = 60. * p.eps() * am * x.max_abs();
        for k in 0..h.data.len() {
            ctx.closec("single precision", k, fx.data[k], h.data[k], t)?;
        }
    }
    if c.mat > 0 && s.axes[0].1 <= 64 {
        let (k, n) = s.axes[0];
        let (lo, hi) = (make(k, n, Prec::F32), make(k, n, Prec::F64));
        let eps = Prec::F32.eps();
        let mut ms = vec![Mat::Stencil, Mat::Lap, Mat::Diff(c.mat)];
        if n >= 5 || k.is_fourier() {
            ms.extend([Mat::LapPinv, Mat::DiffPinv(c.mat)]);
        }
        ctx.label("matrix");
        for m in ms {
            let (a, b) = (lo.mat(m), hi.mat(m));
            ctx.check("shape of the matrix in single precision", (a.r, a.c) == (b.r, b.c), || format!("{k:?} n={n} {m:?}"))?;
            for i in 0..a.a.len() {
                // every entry is a closed formula
                ctx.closec("matrix in single precision", i, a.a[i], b.a[i], 16. * eps * b.a[i].norm())?;
            }
        }
    }
    Ok(())
}
fn g15(t: Tier, _s: usize) -> BoxedStrategy<Lin> {
    let mx = t.pick([90, 16, 10], [400, 40, 14]);
    let sop = prop_oneof![
        1 => Just(Op::Forward).prop_map(SOp::Op),
        1 => Just(Op::Backward).prop_map(SOp::Op),
        1 => Just(Op::ToOrtho).prop_map(SOp::Op),
        1 => Just(Op::FromOrtho).prop_map(SOp::Op),
        2 => prop::collection::vec(0u8..=2, 3).prop_map(SOp::Grad),
    ];
    let fac = || (-12i8..=12, -12i8..=12);
    let spaces = prop_oneof![60 => space(0, mx), 1 => space(0, [1100, 150, 34])];
    let pow = prop_oneof![1 => Just(0i16), 1 => -300i16..=200];
    (spaces, sop, mode4(), any::<bool>(), any_data(), any_data(), fac(), fac(), (any::<bool>(), pow, prop_oneof![30 => Just(0u8), 1 => 1u8..=4]))
        .prop_map(|(mut spec, mut op, mode, cplx, mut x, mut y, a, b, (single, mut pow, mat))| {
            if let SOp::Grad(d) = &mut op {
                d.truncate(spec.axes.len());
            }
            if single {
                spec.prec = Prec::F32;
            }
            x.exp = 0;
            y.exp = 0;
            if spec.prec == Prec::F32 {
                pow /= 5;
                // the condition of the boundary solves exhausts single precision
                for a in &mut spec.axes {
                    if a.0.is_composite() {
                        a.1 = a.1.min(90);
                    }
                }
                for d in [&mut x, &mut y] {
                    if d.kind == DataKind::Wild {
                        d.kind = DataKind::Uniform;
                    }
                }
            }
            Lin { spec, op, mode, cplx, x, y, a, b, pow, mat }
        })
        .boxed()
}
pub static C15: Prop<Lin> = Prop {
    id: "C15",
    rule: "a space of any dimension, one conversion or mixed derivative, two data sets and two factors; superposition, zero, scaling by powers of two from 2^-300 to 2^200 (single precision 2^-60 to 2^40), independence of real and imaginary parts over real bases, and single against double precision; non-trivial: both data sets and factors non-zero",
    cases: (864_000, 4_320_000),
    gen: g15,
    exec: c15,
    assumptions: &["rounding allowance: 60 eps times a bound of the operator"],
};

// ================================================================= C16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Four {
    pub n: usize,
    pub prec: Prec,
    pub data: Data,
    pub shift: u16,
    pub deriv: u8,
    pub mode: Mode,
    /// sizes of further periodic axes (0 to 2)
    pub more: Vec<usize>,
}

fn phase(j: i64, s: i64, n: usize) -> C64 {
    let r = (j * s).rem_euclid(n as i64) as f64;
    C64::from_polar(1., 2. * std::f64::consts::PI * r / n as f64)
}

fn c16(c: &Four, ctx: &mut Ctx) -> Res {
    let (n, p, eps) = (c.n, c.prec, c.prec.eps());
    let half = n / 2 + 1;
    ctx.nontrivial = n > 2;
    ctx.label(if n % 2 == 0 { "even" } else { "odd" });
    let r = make(Kind::R2c, n, p);
    let z = make(Kind::C2c, n, p);
    let run = |b: &dyn AnyBase, op: Op, x: &[C64]| b.op(op, false, c.mode, false, &Arr::vec(x.to_vec()), 0).data;
    let v = values(&c.data, n, false, p, 1);
    let e2 = norm2(&v);
    let nf = n as f64;
    // allowance: relative to the rms of the transform
    let tol = 40. * eps * (1. + nf.log2()) * e2 * nf.sqrt().max(1.);
    let fr = run(&*r, Op::Forward, &v);
    let fz = run(&*z, Op::Forward, &v);
    for k in 0..half {
        ctx.closec("real against complex spectrum", k, fr[k], fz[k], tol)?;
    }
    for k in 1..n {
        ctx.closec("conjugate symmetry", k, fz[k], fz[n - k].conj(), tol)?;
    }
    ctx.close("mean is real", 0, fr[0].im, 0., tol)?;
    if n % 2 == 0 {
        ctx.close("nyquist is real", 0, fr[half - 1].im, 0., tol)?;
    }
    // Parseval
    let es = norm2(&fz);
    ctx.close("parseval", 0, es, e2 * nf.sqrt(), 40. * eps * (1. + nf.log2()) * e2 * nf.sqrt())?;
    // shift theorem
    let s = c.shift as usize % n;
    let shifted: Vec<C64> = (0..n).map(|j| v[(j + s) % n]).collect();
    let fs = run(&*r, Op::Forward, &shifted);
    for k in 0..half {
        ctx.closec("shift", k, fs[k], fr[k] * phase(k as i64, s as i64, n), 2. * tol)?;
    }
    // backward of arbitrary half spectra, including the ignored parts
    let h = values(&c.data, half, true, p, 2);
    let br = run(&*r, Op::Backward, &h);
    let mut h0 = h.clone();
    h0[0].im = 0.;
    if n % 2 == 0 {
        h0[half - 1].im = 0.;
    }
    let b0 = run(&*r, Op::Backward, &h0);
    let bz = run(&*z, Op::Backward, &hermitian(&h0, n));
    let tb = 40. * eps * (1. + nf.log2()) * norm2(&h);
    for j in 0..n {
        ctx.closec("imaginary mean and nyquist ignored", j, br[j], b0[j], tb)?;
        ctx.closec("real against complex backward", j, br[j], bz[j], tb)?;
    }
    // derivatives: same modes below nyquist, and physical values stay real
    let d = c.deriv;
    let gr = run(&*r, Op::Gradient(d), &fr);
    let gz = run(&*z, Op::Gradient(d), &fz);
    let dn = (nf / 2.).max(1.).powi(d as i32);
    for k in 0..n.div_ceil(2) {
        let kd = (k as f64).powi(d as i32);
        ctx.closec("derivative modes", k, gr[k], gz[k], tol * kd + 1e-300)?;
    }
    // derivative rule, on the spectra and on arbitrary coefficients
    let w = values(&c.data, n, true, p, 4);
    for (b, k, f) in [(&r, Kind::R2c, &fr), (&r, Kind::R2c, &h), (&z, Kind::C2c, &fz), (&z, Kind::C2c, &w)] {
        let g = run(&**b, Op::Gradient(d), f);
        for (i, q) in wavenumbers(k, n).into_iter().enumerate() {
            let want = ik_pow(q, d as usize) * f[i];
            ctx.closec("derivative rule", i, g[i], want, 20. * eps * want.norm() + if p == Prec::F32 { 1e-30 } else { 1e-290 })?;
        }
    }
    // complex data
    let fw = run(&*z, Op::Forward, &w);
    let w2 = norm2(&w);
    let tw = 40. * eps * (1. + nf.log2()) * w2 * nf.sqrt();
    ctx.close("parseval of complex data", 0, norm2(&fw), w2 * nf.sqrt(), tw)?;
    let ws: Vec<C64> = (0..n).map(|j| w[(j + s) % n]).collect();
    let fs = run(&*z, Op::Forward, &ws);
    for k in 0..n {
        ctx.closec("shift of complex data", k, fs[k], fw[k] * phase(k as i64, s as i64, n), 2. * tw)?;
    }
    let pr = run(&*r, Op::Backward, &gr);
    let mut gz0 = gz.clone();
    let mut grn = gr.clone();
    if n % 2 == 0 && d % 2 == 1 {
        // the unpaired mode has no real odd derivative
        gz0[n / 2] = ZERO;
        grn[half - 1] = ZERO;
    }
    let pz = run(&*z, Op::Backward, &gz0);
    let pn = run(&*r, Op::Backward, &grn);
    let tp = 40. * eps * (1. + nf.log2()) * e2 * dn;
    for j in 0..n {
        ctx.closec("derivative of a real field", j, pr[j], pz[j], tp)?;
        ctx.closec("nyquist of odd derivative", j, pr[j], pn[j], tp)?;
    }
    // periodic spaces of two and three dimensions on real data
    if !c.more.is_empty() {
        ctx.label(format!("{}D", c.more.len() + 1));
        let mut ar: Vec<(Kind, usize)> = c.more.iter().map(|m| (Kind::C2c, *m)).collect();
        ar.push((Kind::R2c, n));
        let az = ar.iter().map(|a| (Kind::C2c, a.1)).collect();
        let sr = SpaceSpec { axes: ar, prec: p };
        let sz = SpaceSpec { axes: az, prec: p };
        let (spr, spz) = (sr.build(), sz.build());
        let sh = sr.shape(Op::Forward, false);
        let len: usize = sh.iter().product();
        let x = Arr::new(&sh, values(&c.data, len, false, p, 3));
        let (a, b) = (spr.op(Op::Forward, false, c.mode, &x), spz.op(Op::Forward, false, c.mode, &x));
        let t = 100. * eps * (1. + (len as f64).log2()) * norm2(&x.data) * (len as f64).sqrt();
        let rows = len / n;
        for i in 0..rows {
            for k in 0..half {
                ctx.closec("periodic spaces agree", i * half + k, a.data[i * half + k], b.data[i * n + k], t)?;
            }
        }
        let back = spr.op(Op::Backward, false, c.mode, &a);
        let t = 100. * eps * (1. + (len as f64).log2()) * norm2(&x.data);
        for i in 0..len {
            ctx.closec("periodic space round trip", i, back.data[i], x.data[i], t)?;
        }
    }
    Ok(())
}
fn g16(t: Tier, _s: usize) -> BoxedStrategy<Four> {
    (
        size(1, t.pick(400, 2050)),
        prec(),
        any_data(),
        any::<u16>(),
        0u8..=4,
        mode4(),
        prop_oneof![3 => Just(vec![]), 2 => prop::collection::vec(1usize..9, 1..=2)],
    )
        .prop_map(|(n, prec, mut data, shift, deriv, mode, more)| {
            if prec == Prec::F32 {
                data.exp = 0;
            }
            let n = if more.is_empty() { n } else { n % 24 + 1 };
            Four { n, prec, data, shift, deriv, mode, more }
        })
        .boxed()
}
pub static C16: Prop<Four> = Prop {
    id: "C16",
    rule: "a periodic length (1..400 quick, ..2050 thorough, powers of two and neighbours favoured), real data and an arbitrary half spectrum, a shift and a derivative order, optionally two or three periodic axes; non-trivial: length above 2",
    cases: (1_152_000, 4_320_000),
    gen: g16,
    exec: c16,
    assumptions: &[],
};

// ================================================================= C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
    /// input too short or long by this much along the axis
    Input(i8),
    /// output wrong along the axis
    Output(i8),
    /// another dimension of the output differs
    Cross(i8),
    /// slice call with these length errors (input, output)
    Slice(i8, i8),
    /// correct shapes, unusual memory layouts (input, output)
    Layout(Layout, Layout),
    /// axis number beyond the last one
    Axis(u8),
    /// all as it should be
    Good,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Reject {
    pub kind: Kind,
    pub prec: Prec,
    pub n: usize,
    pub axis: u8,
    pub other: Vec<usize>,
    pub op: Op,
    pub par: bool,
    pub alloc: bool,
    pub cplx: bool,
    pub bad: Bad,
    pub data: Data,
}
fn off(n: usize, d: i8) -> usize {
    (n as i64 + d as i64).max(0) as usize
}
fn c17(c: &Reject, ctx: &mut Ctx) -> Res {
    let b = make(c.kind, c.n, c.prec);
    let (li, lo) = c.op.lens(c.kind, c.n);
    let axis = c.axis as usize;
    let full = |l: usize| {
        let mut s = c.other.clone();
        s.insert(axis, l);
        s
    };
    let cx = c.op.in_complex(c.kind, c.cplx);
    let gen = |sh: &[usize]| Arr::new(sh, values(&c.data, sh.iter().product(), cx, c.prec, 1));
    let call = |x: &Arr, out: &Arr| {
        let lay = match c.bad {
            Bad::Layout(a, b) => (a, b),
            _ => (Layout::Standard, Layout::Standard),
        };
        no_panic(|| b.op_view(c.op, c.cplx, c.par, x, out, axis, lay))
    };
    let good_in = match c.bad {
        Bad::Layout(Layout::Same(x), _) if x as usize <= c.other.len() && li > 0 => gen(&full(li)).repeat_axis(x as usize),
        _ => gen(&full(li)),
    };
    let junk = Arr::filled(&full(lo), GARBAGE);
    ctx.label(match &c.bad {
        Bad::Input(_) => "input",
        Bad::Output(_) => "output",
        Bad::Cross(_) => "cross",
        Bad::Slice(..) => "slice",
        Bad::Layout(..) => "layout",
        Bad::Axis(_) => "axis",
        Bad::Good => "good",
    });
    let must_fail = |ctx: &mut Ctx, r: Result<Arr, String>, what: &str| -> Res {
        ctx.nontrivial = true;
        match r {
            Err(m) if m.contains("FSV-OUTSIDE-VIEW") => fail("wrote outside the view", m),
            Err(_) => Ok(()),
            Ok(a) => fail(what, format!("{what}: {c:?} returned shape {:?}", a.shape)),
        }
    };
    match &c.bad {
        Bad::Input(d) => {
            let x = gen(&full(off(li, *d)));
            if c.alloc {
                let m = if c.par { Mode::AllocPar } else { Mode::Alloc };
                let r = no_panic(|| b.op(c.op, c.cplx, m, false, &x, axis));
                must_fail(ctx, r, "wrong input size accepted")?;
            } else {
                must_fail(ctx, call(&x, &junk), "wrong input size accepted")?;
            }
        }
        Bad::Output(d) => {
            let out = Arr::filled(&full(off(lo, *d)), GARBAGE);
            must_fail(ctx, call(&good_in, &out), "wrong output size accepted")?;
        }
        Bad::Cross(d) if !c.other.is_empty() => {
            let mut o = c.other.clone();
            let l = o.len() - 1;
            o[l] = off(o[l], *d).max(1);
            if o != c.other {
                o.insert(axis, lo);
                must_fail(ctx, call(&good_in, &Arr::filled(&o, GARBAGE)), "mismatched cross dimension accepted")?;
            }
        }
        Bad::Axis(d) => {
            let bad_axis = c.other.len() + 1 + *d as usize;
            let std = (Layout::Standard, Layout::Standard);
            let r = no_panic(|| b.op_view(c.op, c.cplx, c.par, &good_in, &junk, bad_axis, std));
            must_fail(ctx, r, "axis out of range accepted")?;
        }
        Bad::Slice(di, d_o) => {
            let x = values(&c.data, off(li, *di), cx, c.prec, 1);
            let out = vec![GARBAGE; off(lo, *d_o)];
            let r = no_panic(|| b.slice(c.op, c.cplx, &x, &out));
            // plain copies between identical representations may truncate;
            // everything else has to refuse
            let copy = !c.kind.is_composite() && matches!(c.op, Op::ToOrtho | Op::FromOrtho);
            ctx.nontrivial = true;
            match r {
                Ok(y) if !copy && (off(li, *di) != li || off(lo, *d_o) != lo) => {
                    return fail("wrong slice length accepted", format!("{c:?} returned {} values", y.len()))
                }
                Ok(y) => ctx.check("slice length", y.len() == out.len(), || String::new())?,
                Err(_) => {}
            }
        }
        Bad::Layout(a, bb) => {
            let legal = |l: &Layout| match l {
                Layout::Reversed(x) | Layout::Strided(x) | Layout::Window(x) | Layout::Front(x) | Layout::Same(x) => (*x as usize) <= c.other.len(),
                _ => true,
            };
            if legal(a) && legal(bb) {
                ctx.nontrivial = *a != Layout::Standard || *bb != Layout::Standard;
                match call(&good_in, &junk) {
                    Err(m) if m.contains("FSV-OUTSIDE-VIEW") => return fail("wrote outside the view", m),
                    Err(_) => ctx.label("layout rejected"),
                    Ok(got) => {
                        ctx.label("layout accepted");
                        let want = make(c.kind, c.n, c.prec).op(c.op, c.cplx, Mode::Alloc, false, &good_in, axis);
                        let t = 1e3 * c.prec.eps() * (1. + want.max_abs());
                        same(ctx, "result under unusual layout", &got, &want, t)?;
                    }
                }
            }
        }
        _ => {}
    }
    // the base still works after refusing
    let got = call_plain(&*b, c, &good_in, &junk, axis);
    let got = match got {
        Ok(g) => g,
        Err(m) => return fail("valid call refused", format!("{m}: {c:?}")),
    };
    let want = make(c.kind, c.n, c.prec).op(c.op, c.cplx, Mode::Alloc, false, &good_in, axis);
    let t = 1e3 * c.prec.eps() * (1. + want.max_abs());
    same(ctx, "valid call afterwards", &got, &want, t)
}
fn call_plain(b: &dyn AnyBase, c: &Reject, x: &Arr, out: &Arr, axis: usize) -> Result<Arr, String> {
    no_panic(|| b.op_view(c.op, c.cplx, c.par, x, out, axis, (Layout::Standard, Layout::Standard)))
}
pub fn layout() -> BoxedStrategy<Layout> {
    prop_oneof![
        2 => Just(Layout::Standard),
        2 => Just(Layout::Fortran),
        1 => (0u8..3).prop_map(Layout::Reversed),
        1 => (0u8..3).prop_map(Layout::Strided),
        1 => (0u8..3).prop_map(Layout::Window),
        1 => (1u8..3).prop_map(Layout::Front),
    ]
    .boxed()
}
/// layouts of operands that are only read
fn layout_in() -> BoxedStrategy<Layout> {
    prop_oneof![10 => layout(), 1 => (0u8..3).prop_map(Layout::Same)].boxed()
}
fn g17(_t: Tier, _s: usize) -> BoxedStrategy<Reject> {
    let d = || prop_oneof![4 => select(&[-2i8, -1, 1, 2][..]), 1 => -12i8..=-3, 1 => 3i8..=12, 1 => Just(-127i8)];
    let bad = prop_oneof![
        3 => d().prop_map(Bad::Input),
        3 => d().prop_map(Bad::Output),
        2 => d().prop_map(Bad::Cross),
        2 => (d(), Just(0i8)).prop_map(|(a, b)| Bad::Slice(a, b)),
        2 => (Just(0i8), d()).prop_map(|(a, b)| Bad::Slice(a, b)),
        2 => (d(), d()).prop_map(|(a, b)| Bad::Slice(a, b)),
        5 => (layout_in(), layout()).prop_map(|(a, b)| Bad::Layout(a, b)),
        1 => (0u8..4).prop_map(Bad::Axis),
        1 => Just(Bad::Good),
    ];
    let op = prop_oneof![
        2 => Just(Op::Forward),
        2 => Just(Op::Backward),
        2 => Just(Op::ToOrtho),
        2 => Just(Op::FromOrtho),
        2 => (0u8..=3).prop_map(Op::Gradient),
    ];
    (
        select(&ALL_KINDS[..]).prop_flat_map(|k| (Just(k), k.min_n()..=20usize)),
        prec(),
        (0usize..=2).prop_flat_map(|o| (0..=o as u8, prop::collection::vec(prop_oneof![1 => Just(0usize), 24 => 1usize..6], o))),
        op,
        (any::<bool>(), any::<bool>(), any::<bool>()),
        bad,
        dense_data(),
    )
        .prop_map(|((kind, n), prec, (axis, other), op, (par, alloc, cplx), bad, data)| Reject {
            kind, prec, n, axis, other, op, par, alloc, cplx, bad, data,
        })
        .boxed()
}
/// a space call with one wrong extent somewhere
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SpReject {
    pub space: SpaceSpec,
    pub op: SOp,
    pub par: bool,
    pub alloc: bool,
    pub cplx: bool,
    /// which axis, by how much, of the output (else of the input)
    pub axis: u8,
    pub off: i8,
    pub out: bool,
    pub data: Data,
    /// memory layouts of the operands instead of a wrong extent
    #[serde(default)]
    pub lay: Option<(Layout, Layout)>,
}
/// operands of the right shape in an unusual layout: refused or right
fn c17l(c: &SpReject, lay: (Layout, Layout), ctx: &mut Ctx) -> Res {
    let s = &c.space;
    let nd = s.axes.len() as u8;
    let fit = |l: Layout| match l {
        Layout::Reversed(x) => Layout::Reversed(x % nd),
        Layout::Strided(x) => Layout::Strided(x % nd),
        Layout::Window(x) => Layout::Window(x % nd),
        Layout::Front(x) => Layout::Front(x % nd),
        Layout::Same(x) => Layout::Same(x % nd),
        l => l,
    };
    let lay = (fit(lay.0), fit(lay.1));
    let sp = s.build();
    let so = c.op.shape_op();
    let x = arr_of(&c.data, &s.shape(so, false), s.in_complex(so, c.cplx), s.prec, 1);
    let x = match lay.0 {
        Layout::Same(a) => x.repeat_axis(a as usize),
        _ => x,
    };
    let out = Arr::filled(&s.shape(so, true), GARBAGE);
    let got = no_panic(|| match &c.op {
        SOp::Op(o) => sp.op_view(*o, c.cplx, c.alloc, c.par, &x, &out, lay),
        SOp::Grad(d) => sp.gradient_view(&x, d, c.par, c.cplx, lay.0),
    });
    ctx.nontrivial = lay.0 != Layout::Standard || lay.1 != Layout::Standard;
    let want = c.op.run(&*s.build(), c.cplx, Mode::Alloc, &x);
    let tol = 1e3 * s.prec.eps() * (1. + want.max_abs()) * if s.prec == Prec::F32 { 10. } else { 1. };
    match got {
        Err(m) if m.contains("FSV-OUTSIDE-VIEW") => fail("wrote outside the view", m),
        Err(m) if !ctx.nontrivial => fail("valid space call refused", m),
        Err(_) => {
            ctx.label("space layout rejected");
            Ok(())
        }
        Ok(got) => {
            ctx.label("space layout accepted");
            same(ctx, "space result under unusual layout", &got, &want, tol)
        }
    }
}
fn c17s(c: &SpReject, ctx: &mut Ctx) -> Res {
    if let Some(l) = c.lay {
        return c17l(c, l, ctx);
    }
    let s = &c.space;
    let nd = s.axes.len();
    let sp = s.build();
    let so = c.op.shape_op();
    let a = c.axis as usize % nd;
    let grad = matches!(c.op, SOp::Grad(_));
    let (alloc, bad_out) = (c.alloc || grad, c.out && !c.alloc && !grad);
    let (mut si, mut sout) = (s.shape(so, false), s.shape(so, true));
    let good = si.clone();
    if bad_out {
        sout[a] = off(sout[a], c.off).max(1);
    } else {
        si[a] = off(si[a], c.off).max(1);
    }
    let malformed = si != good || sout != s.shape(so, true);
    ctx.nontrivial = malformed;
    ctx.label(format!("space{nd} {}", if bad_out { "output" } else { "input" }));
    let cx = s.in_complex(so, c.cplx);
    let gen = |sh: &[usize]| Arr::new(sh, values(&c.data, sh.iter().product(), cx, s.prec, 1));
    let x = gen(&si);
    let run = |x: &Arr, sout: &[usize]| {
        let mode = if c.par { Mode::AllocPar } else { Mode::Alloc };
        no_panic(|| match &c.op {
            SOp::Op(o) if !alloc => sp.op_into(*o, c.cplx, c.par, x, &Arr::filled(sout, GARBAGE)),
            o => o.run(&*sp, c.cplx, mode, x),
        })
    };
    if malformed {
        if let Ok(y) = run(&x, &sout) {
            return fail("space accepted a wrong shape", format!("{c:?} returned {:?}", y.shape));
        }
    }
    match run(&gen(&good), &s.shape(so, true)) {
        Err(m) => fail("valid space call refused", format!("{m}: {c:?}")),
        Ok(y) => ctx.check("space output shape", y.shape == s.shape(so, true), || format!("{:?}", y.shape)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Malformed {
    Base(Reject),
    Space(SpReject),
}
fn c17m(c: &Malformed, ctx: &mut Ctx) -> Res {
    match c {
        Malformed::Base(r) => c17(r, ctx),
        Malformed::Space(r) => c17s(r, ctx),
    }
}
fn g17m(t: Tier, s: usize) -> BoxedStrategy<Malformed> {
    let sp = (
        space(0, [16, 12, 8]),
        (0u8..5, prop::collection::vec(0u8..3, 3)),
        (any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>()),
        0u8..3,
        select(&[-3i8, -2, -1, 1, 2, 3, 9, -100][..]),
        dense_data(),
        prop_oneof![1 => Just(None), 1 => (layout_in(), layout()).prop_map(Some)],
    )
        .prop_map(|(space, (o, d), (par, alloc, cplx, out), axis, off, data, lay)| {
            let op = match o {
                0 => SOp::Op(Op::Forward),
                1 => SOp::Op(Op::Backward),
                2 => SOp::Op(Op::ToOrtho),
                3 => SOp::Op(Op::FromOrtho),
                _ => SOp::Grad(d[..space.axes.len()].to_vec()),
            };
            SpReject { space, op, par, alloc, cplx, axis, off, out, data, lay }
        });
    prop_oneof![4 => g17(t, s).prop_map(Malformed::Base), 1 => sp.prop_map(Malformed::Space)].boxed()
}
pub static C17: Prop<Malformed> = Prop {
    id: "C17",
    rule: "a base or space, an operation, and operands whose axis length, cross dimension, slice length, axis number, shape or memory layout is off; the call must refuse (layouts: refuse or be right), write nothing outside its output, and the next valid call must succeed; non-trivial: the operands really are malformed",
    cases: (2_160_000, 10_800_000),
    gen: g17m,
    exec: c17m,
    assumptions: &["built with debug assertions, so an out-of-bounds unchecked access aborts the worker and is reported"],
};

// ================================================================= C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Help {
    pub shape: Vec<usize>,
    pub data: Data,
    pub prec: Prec,
    /// (entry selector, imaginary part, offset in 1e-5, NaN instead)
    pub diffs: Vec<(u16, bool, i16, bool)>,
    /// change of one dimension: (selector, amount)
    pub reshape: Option<(u8, i8)>,
    pub axis: u8,
    pub size: u8,
    /// memory layouts of the arrays compared
    #[serde(default = "plain")]
    pub lay: (Layout, Layout),
}
fn plain() -> (Layout, Layout) {
    (Layout::Standard, Layout::Standard)
}

fn c18(c: &Help, ctx: &mut Ctx) -> Res {
    use funspace::utils::*;
    let p = c.prec;
    let len: usize = c.shape.iter().product();
    let a = values(&c.data, len, true, p, 1);
    let mut b = a.clone();
    let (mut bad_re, mut bad_any) = (false, false);
    for (at, im, by, nan) in &c.diffs {
        let by = if by.unsigned_abs() > 90 && by.unsigned_abs() < 110 { 200 } else { *by };
        // the highest selectors count from the end
        let i = if *at >= 65500 { len - 1 - (65535 - *at as usize) % len } else { *at as usize % len };
        let d = if *nan { f64::NAN } else { by as f64 * 1e-5 };
        let v = if *im { &mut b[i].im } else { &mut b[i].re };
        let orig = if *im { a[i].im } else { a[i].re };
        *v = p.round(orig + d);
    }
    for i in 0..len {
        // values within rounding of the threshold are not generated
        let off = |x: f64, y: f64| !((x - y).abs() < 1e-3);
        bad_re |= off(a[i].re, b[i].re);
        bad_any |= off(a[i].re, b[i].re) || off(a[i].im, b[i].im);
    }
    ctx.nontrivial = bad_any || !c.diffs.is_empty();
    ctx.label(format!("re {bad_re} any {bad_any}"));
    let mut sh2 = c.shape.clone();
    let mut b2 = b.clone();
    let mut wrong_shape = false;
    if let Some((s, d)) = c.reshape {
        let k = s as usize % sh2.len();
        let old = sh2[k];
        sh2[k] = off(old, d);
        wrong_shape = sh2 != c.shape;
        b2 = (0..sh2.iter().product()).map(|i| if len > 0 { b[i % len] } else { ZERO }).collect();
        if wrong_shape {
            ctx.label("shape differs");
        }
    }
    let mut judge = |what: &str, bad: bool, f: &dyn Fn()| -> Res {
        let refused = no_panic(f).is_err();
        ctx.check(what, refused == bad, || format!("refused {refused}, should be {bad}: {c:?}"))
    };
    macro_rules! go {
        ($t:ty) => {{
            let re = |v: &[C64]| v.iter().map(|z| z.re as $t).collect::<Vec<$t>>();
            let cz = |v: &[C64]| v.iter().map(|z| Complex::new(z.re as $t, z.im as $t)).collect::<Vec<_>>();
            let l1 = a.len() != b2.len();
            judge("real vectors", bad_re || l1, &|| approx_eq(&re(&a), &re(&b2)))?;
            judge("real vectors swapped", bad_re || l1, &|| approx_eq(&re(&b2), &re(&a)))?;
            judge("complex vectors", bad_any || l1, &|| approx_eq_complex(&cz(&a), &cz(&b2)))?;
            let nr = |v: &[C64], s: &[usize]| ArrayD::from_shape_vec(IxDyn(s), re(v)).unwrap();
            let nc = |v: &[C64], s: &[usize]| ArrayD::from_shape_vec(IxDyn(s), cz(v)).unwrap();
            if !wrong_shape {
                // logical arrays are compared, however they lie in memory
                let fit = |l: Layout| match l {
                    Layout::Reversed(x) => Layout::Reversed(x % sh2.len() as u8),
                    Layout::Strided(x) => Layout::Strided(x % sh2.len() as u8),
                    Layout::Window(x) => Layout::Window(x % sh2.len() as u8),
                    Layout::Front(x) => Layout::Front(x % sh2.len() as u8),
                    l => l,
                };
                let ar = |v: &[C64]| Arr::new(&sh2, v.to_vec());
                let (x, y) = (Store::<$t>::new(&ar(&a), fit(c.lay.0)), Store::<$t>::new(&ar(&b2), fit(c.lay.1)));
                judge("real views", bad_re, &|| approx_eq_ndarray(&x.view(), &y.view()))?;
                judge("real views swapped", bad_re, &|| approx_eq_ndarray(&y.view(), &x.view()))?;
                let (x, y) = (
                    Store::<Complex<$t>>::new(&ar(&a), fit(c.lay.0)),
                    Store::<Complex<$t>>::new(&ar(&b2), fit(c.lay.1)),
                );
                judge("complex views", bad_any, &|| approx_eq_complex_ndarray(&x.view(), &y.view()))?;
                let ax = c.axis as usize % c.shape.len();
                let r: ArrayD<$t> = array_resized_axis(&x.view(), c.size as usize, ax);
                let mut want = c.shape.clone();
                want[ax] = c.size as usize;
                ctx.check("resized view", r.shape() == &want[..] && r.iter().all(|v| *v == 0.), || format!("{:?} want {want:?}", r.shape()))?;
                let mut judge = |what: &str, bad: bool, f: &dyn Fn()| -> Res {
                    let refused = no_panic(f).is_err();
                    ctx.check(what, refused == bad, || format!("refused {refused}, should be {bad}: {c:?}"))
                };
                judge("axis size check of a view", c.size as usize != c.shape[ax], &|| {
                    check_array_axis(&y.view(), c.size as usize, ax, "f")
                })?;
            }
            let mut judge = |what: &str, bad: bool, f: &dyn Fn()| -> Res {
                let refused = no_panic(f).is_err();
                ctx.check(what, refused == bad, || format!("refused {refused}, should be {bad}: {c:?}"))
            };
            judge("real arrays", bad_re || wrong_shape, &|| approx_eq_ndarray(&nr(&b2, &sh2), &nr(&a, &c.shape)))?;
            judge("complex arrays", bad_any || wrong_shape, &|| {
                approx_eq_complex_ndarray(&nc(&b2, &sh2), &nc(&a, &c.shape))
            })?;
            let ax = c.axis as usize % c.shape.len();
            let x = nr(&a, &c.shape);
            let r: ArrayD<Complex<$t>> = array_resized_axis(&x, c.size as usize, ax);
            let mut want = c.shape.clone();
            want[ax] = c.size as usize;
            let ok = r.shape() == &want[..] && r.iter().all(|v| *v == Complex::new(0., 0.));
            ctx.check("resized array", ok, || format!("{:?} want {want:?}", r.shape()))?;
            let mut judge = |what: &str, bad: bool, f: &dyn Fn()| -> Res {
                let refused = no_panic(f).is_err();
                ctx.check(what, refused == bad, || format!("refused {refused}, should be {bad}: {c:?}"))
            };
            judge("axis size check", c.size as usize != c.shape[ax], &|| {
                check_array_axis(&x, c.size as usize, ax, "f")
            })?;
        }};
    }
    match p {
        Prec::F64 => go!(f64),
        Prec::F32 => go!(f32),
    }
    Ok(())
}
fn g18(_t: Tier, _s: usize) -> BoxedStrategy<Help> {
    let at = prop_oneof![4 => any::<u16>(), 1 => 65500u16..];
    let large = prop_oneof![
        (6usize..6000).prop_map(|a| vec![a]),
        (6usize..110, 6usize..110).prop_map(|(a, b)| vec![a, b]),
        (2usize..20, 2usize..20, 2usize..20).prop_map(|(a, b, c)| vec![a, b, c]),
    ];
    let diff = (at, any::<bool>(), prop_oneof![2 => -90i16..=90, 2 => 110i16..30000, 1 => -30000i16..=-110], prop::bool::weighted(0.1));
    (
        prop_oneof![120 => prop::collection::vec(1usize..6, 1..=3).boxed(), 1 => large.boxed()],
        dense_data(),
        prec(),
        prop_oneof![2 => Just(vec![]), 5 => prop::collection::vec(diff, 1..4)],
        prop_oneof![3 => Just(None), 1 => (any::<u8>(), select(&[-1i8, 1, 2][..])).prop_map(Some)],
        any::<u8>(),
        1u8..7,
        (layout(), layout()),
    )
        .prop_map(|(shape, mut data, prec, diffs, reshape, axis, size, lay)| {
            data.exp = 0;
            Help { shape, data, prec, diffs, reshape, axis, size, lay }
        })
        .boxed()
}
pub static C18: Prop<Help> = Prop {
    id: "C18",
    rule: "two arrays (one in 120 of up to some 12000 elements) equal up to a few perturbed real or imaginary parts (below, above the threshold, or NaN) and possibly of different shape; non-trivial: something was perturbed",
    cases: (1_440_000, 10_800_000),
    gen: g18,
    exec: c18,
    assumptions: &["differences between 0.9e-3 and 1.1e-3 are not generated"],
};

// ================================================================= C19

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Anal {
    pub spec: SpaceSpec,
    /// per term and axis: coefficients of the factor, small integers
    pub terms: Vec<Vec<Vec<i8>>>,
    pub deriv: Vec<u8>,
    /// domain stretch per axis in 1/4
    pub scale: Option<Vec<u8>>,
    pub mode: Mode,
    /// per axis: where the modes start, 0 low to 255 as high as fits
    #[serde(default)]
    pub lift: Vec<u8>,
}

/// derivatives 0..=4 of a factor that starts at a higher mode: Chebyshev
/// coefficients or signed Fourier modes from `lo` on
fn lifted(k: Kind, n: usize, co: &[i8], lift: u8, x: &[f64], d: usize) -> Vec<C64> {
    if k.is_fourier() {
        let top = (n - 1) / 2;
        let used = co.len() / 2;
        let lo = (top - used) * lift as usize / 255;
        return x
            .iter()
            .map(|x| {
                let mut s = ZERO;
                for (i, v) in co.iter().enumerate() {
                    let kk = (lo + (i + 1) / 2) as f64;
                    let v = *v as f64;
                    let first = i % 2 == 1 || i == 0;
                    if k == Kind::R2c {
                        let kd = if kk == 0. && d > 0 { 0. } else { kk.powi(d as i32) };
                        let ph = kk * x + d as f64 * std::f64::consts::FRAC_PI_2;
                        s += if first { v * kd * ph.cos() } else { v * kd * ph.sin() };
                    } else {
                        let q = if first { kk } else { -kk };
                        s += ik_pow(q, d) * v * C64::from_polar(1., q * x);
                    }
                }
                s
            })
            .collect();
    }
    let cap = if k == Kind::Cheb { n } else { n - 6 };
    let lo = (cap - co.len()) * lift as usize / 255;
    let mut a = vec![ZERO; lo];
    a.extend(co.iter().map(|v| C64::new(*v as f64, 0.)));
    if k != Kind::Cheb {
        for _ in 0..3 {
            // times 1 - x^2 = 1/2 - T_2/2
            let mut b = vec![ZERO; a.len() + 2];
            for (i, v) in a.iter().enumerate() {
                b[i] += v * 0.5;
                b[i + 2] -= v * 0.25;
                b[i.abs_diff(2)] -= v * 0.25;
            }
            a = b;
        }
    }
    let a = cheb_diff_n(&a, d);
    x.iter()
        .map(|x| {
            let t = x.clamp(-1., 1.).acos();
            a.iter().enumerate().map(|(i, v)| v * (i as f64 * t).cos()).sum()
        })
        .collect()
}

/// factor of a term along one axis: value of its d-th derivative at x
fn factor(k: Kind, co: &[i8], x: f64, d: usize) -> C64 {
    if k.is_fourier() {
        // co = [c0, a1, b1, a2, b2, ...]: sum a cos kx + b sin kx (real axes)
        // or sum over signed modes a e^{ikx} (complex axes)
        let mut s = ZERO;
        for (i, v) in co.iter().enumerate() {
            let kk = ((i + 1) / 2) as f64;
            let v = *v as f64;
            let kd = if kk == 0. && d > 0 { 0. } else { kk.powi(d as i32) };
            let q = d as f64 * std::f64::consts::FRAC_PI_2;
            if k == Kind::R2c {
                let ph = kk * x + q;
                s += if i % 2 == 1 || i == 0 { v * kd * ph.cos() } else { v * kd * ph.sin() };
            } else {
                let sg = if i % 2 == 1 || i == 0 { 1. } else { -1. };
                s += ik_pow(sg * kk, d) * v * C64::from_polar(1., sg * kk * x);
            }
        }
        return s;
    }
    // polynomial times a bubble that satisfies every boundary condition
    let bub: &[f64] = if k == Kind::Cheb { &[1.] } else { &[1., 0., -3., 0., 3., 0., -1.] };
    let mut m = vec![0.; co.len() + bub.len() - 1];
    for (i, a) in co.iter().enumerate() {
        for (j, b) in bub.iter().enumerate() {
            m[i + j] += *a as f64 * b;
        }
    }
    for _ in 0..d {
        m = (1..m.len()).map(|i| m[i] * i as f64).collect();
    }
    C64::new(m.iter().rev().fold(0., |acc, a| acc * x + a), 0.)
}
fn fits(k: Kind, n: usize, co: usize) -> usize {
    // how many coefficients a factor may have
    let cap = match k {
        Kind::Cheb => n,
        Kind::R2c | Kind::C2c => {
            // modes strictly below nyquist
            let top = (n - 1) / 2;
            2 * top + 1
        }
        _ => n - 6,
    };
    co.min(cap).max(1)
}

fn c19(c: &Anal, ctx: &mut Ctx) -> Res {
    let s = &c.spec;
    let sp = s.build();
    let nd = s.axes.len();
    let x = sp.coords();
    let shape = s.shape(Op::Forward, false);
    let terms: Vec<Vec<Vec<i8>>> = c
        .terms
        .iter()
        .map(|t| (0..nd).map(|a| t[a][..fits(s.axes[a].0, s.axes[a].1, t[a].len())].to_vec()).collect())
        .collect();
    let field = |der: &[u8]| -> Arr {
        let mut out = Arr::filled(&shape, ZERO);
        for t in &terms {
            let fs: Vec<Vec<C64>> = (0..nd)
                .map(|a| {
                    let (k, n) = s.axes[a];
                    match c.lift.get(a) {
                        Some(l) if *l > 0 => lifted(k, n, &t[a], *l, &x[a], der[a] as usize),
                        _ => x[a].iter().map(|p| factor(k, &t[a], *p, der[a] as usize)).collect(),
                    }
                })
                .collect();
            for i in 0..out.data.len() {
                let mut r = i;
                let mut v = C64::new(1., 0.);
                for a in (0..nd).rev() {
                    v *= fs[a][r % shape[a]];
                    r /= shape[a];
                }
                out.data[i] += v;
            }
        }
        out
    };
    // a real field needs real factors: complex axes of mixed spaces carry
    // the real part only
    let mut u = field(&vec![0; nd]);
    let mut want = field(&c.deriv);
    let phys_c = s.phys_complex();
    if !phys_c {
        for v in u.data.iter_mut().chain(want.data.iter_mut()) {
            v.im = 0.;
        }
    }
    ctx.nontrivial = c.deriv.iter().any(|d| *d > 0) && want.max_abs() > 0.;
    let t: Vec<String> = s.axes.iter().map(|a| format!("{:?}", a.0)).collect();
    ctx.label(format!("{}D", nd));
    ctx.label(t.join("x"));
    let sc: Option<Vec<f64>> = c.scale.as_ref().map(|v| v.iter().map(|q| *q as f64 / 4.).collect());
    let mut f = 1.;
    if let Some(v) = &sc {
        for (a, q) in v.iter().enumerate() {
            f *= q.powi(c.deriv[a] as i32);
        }
    }
    let vhat = sp.op(Op::Forward, false, c.mode, &u);
    let par = matches!(c.mode, Mode::AllocPar | Mode::InplacePar);
    let dh = sp.gradient(&vhat, &c.deriv, sc.as_deref(), par, false);
    // back to the grid through the orthogonal parents
    let orth = SpaceSpec {
        axes: s.axes.iter().map(|(k, n)| (if k.is_fourier() { *k } else { Kind::Cheb }, *n)).collect(),
        prec: s.prec,
    }
    .build();
    let got = orth.op(Op::Backward, false, c.mode, &dh);
    let bound: f64 = s
        .axes
        .iter()
        .zip(&c.deriv)
        .map(|((k, n), d)| {
            let nf = *n as f64;
            if k.is_fourier() {
                nf * nf.powi(*d as i32)
            } else {
                nf.powi(k.nbc() as i32 / 2 + 1 + 2 * *d as i32)
            }
        })
        .product();
    let tol = 40. * s.prec.eps() * bound * (1. + u.max_abs()) / f.abs();
    for i in 0..want.data.len() {
        ctx.closec("derivative on the grid", i, got.data[i], want.data[i] / f, tol)?;
    }
    // the field itself comes back
    let back = sp.op(Op::Backward, false, c.mode, &vhat);
    let b0: f64 = s.axes.iter().map(|(k, n)| (*n as f64).powi(k.nbc() as i32 / 2 + 1)).product();
    for i in 0..u.data.len() {
        ctx.closec("field on the grid", i, back.data[i], u.data[i], 40. * s.prec.eps() * b0 * (1. + u.max_abs()))?;
    }
    Ok(())
}
fn g19(t: Tier, _s: usize) -> BoxedStrategy<Anal> {
    let mx = t.pick([32, 16, 12], [64, 24, 16]);
    (
        prop_oneof![250 => space(0, mx), 1 => space(0, [260, 90, 28])],
        prop::collection::vec(prop::collection::vec(prop::collection::vec(-5i8..=5, 1..8), 3), 1..=3),
        prop_oneof![5 => prop::collection::vec(0u8..=2, 3), 1 => prop::collection::vec(0u8..=4, 3)],
        prop::option::of(prop::collection::vec(1u8..=12, 3)),
        mode4(),
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(prop_oneof![1 => Just(0u8), 2 => Just(255u8), 2 => any::<u8>()], 3)],
    )
        .prop_map(|(mut spec, mut terms, mut deriv, mut scale, mode, mut lift)| {
            lift.truncate(spec.axes.len());
            spec.prec = Prec::F64;
            let nd = spec.axes.len();
            for a in &mut spec.axes {
                a.1 = a.1.max(if a.0.is_composite() { 10 } else { 3 });
            }
            for t in &mut terms {
                t.truncate(nd);
            }
            deriv.truncate(nd);
            if let Some(s) = &mut scale {
                s.truncate(nd);
            }
            Anal { spec, terms, deriv, scale, mode, lift }
        })
        .boxed()
}
pub static C19: Prop<Anal> = Prop {
    id: "C19",
    rule: "a space of any dimension, a function given as a sum of up to three products of polynomials (meeting the boundary conditions) and trigonometric polynomials, sampled on the library's own grid; forward, mixed derivative (orders up to 4) with optional domain scale, back to the grid, compared with the analytic derivative; non-trivial: a derivative of positive order that does not vanish",
    cases: (192_000, 1_440_000),
    gen: g19,
    exec: c19,
    assumptions: &["functions are representable: degree below the number of points, wavenumbers below nyquist"],
};
