//! One-dimensional properties: grids, transforms, boundary conditions,
//! projections, derivatives, operator matrices.
use crate::any::*;
use crate::case::*;
use crate::refs::*;
use crate::spaces::SpaceSpec;
use fsv_core::data::{any_data, dense_data};
use fsv_core::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

fn min_of(k: Kind) -> usize {
    k.min_n()
}
/// smallest size for evaluating (not solving)
fn min_eval(k: Kind) -> usize {
    match k.nbc() {
        2 => 4,
        4 => 8,
        _ => k.min_n(),
    }
}
fn lg(n: usize) -> f64 {
    1. + (n as f64).log2()
}
fn long(t: Tier, k: Kind) -> usize {
    match (t, k) {
        (Tier::Quick, _) => 700,
        _ => 2050,
    }
}

// ================================================================= C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum GridCase {
    Base { kind: Kind, n: usize, prec: Prec },
    Space(SpaceSpec),
}

fn grid_ok(ctx: &mut Ctx, k: Kind, n: usize, eps: f64, x: &[f64]) -> Res {
    ctx.check("coords length", x.len() == n, || {
        format!("{k:?} n={n}: {} coordinates", x.len())
    })?;
    if k.is_fourier() {
        let want = fourier_nodes(n);
        for i in 0..n {
            ctx.close("fourier coordinate", i, x[i], want[i], 16. * eps * (1. + want[i]))?;
        }
        ctx.check("fourier grid starts at 0", x[0] == 0., || format!("{}", x[0]))?;
        ctx.check("fourier grid ends before 2pi", x[n - 1] < 6.2831850, || {
            format!("{}", x[n - 1])
        })
        .or_else(|e| if n > 1_000_000 { Ok(()) } else { Err(e) })?;
    } else {
        let want = cheb_nodes(n);
        for i in 0..n {
            ctx.close("chebyshev coordinate", i, x[i], want[i], 8. * eps)?;
            ctx.close("chebyshev grid symmetry", i, x[i], -x[n - 1 - i], 4. * eps)?;
        }
        ctx.close("chebyshev left end", 0, x[0], -1., eps)?;
        ctx.close("chebyshev right end", n - 1, x[n - 1], 1., eps)?;
    }
    for i in 1..n {
        // spacing near the walls shrinks like n^-2
        let resolvable = (n * n) as f64 * eps < 0.1;
        ctx.check("grid increasing", x[i] > x[i - 1] || !resolvable, || {
            format!("{k:?} n={n}: x[{i}]={} x[{}]={}", x[i], i - 1, x[i - 1])
        })?;
    }
    Ok(())
}

fn c01(c: &GridCase, ctx: &mut Ctx) -> Res {
    match c {
        GridCase::Base { kind, n, prec } => {
            let b = make(*kind, *n, *prec);
            ctx.nontrivial = *n > 2;
            ctx.label(format!("{kind:?}"));
            let want = [*n, kind.len_spec(*n), kind.len_orth(*n)];
            ctx.check("sizes", b.lens() == want, || {
                format!("{kind:?} n={n}: got {:?} want {want:?}", b.lens())
            })?;
            ctx.check("base kind", b.kind_dbg() == kind.base_kind_name(), || b.kind_dbg())?;
            ctx.check(
                "transform kind",
                b.transform_dbg() == kind.transform_name(),
                || format!("{kind:?}: {}", b.transform_dbg()),
            )?;
            grid_ok(ctx, *kind, *n, prec.eps(), &b.coords())
        }
        GridCase::Space(s) => {
            let sp = s.build();
            ctx.nontrivial = s.axes.len() > 1;
            ctx.label(format!("space{}", s.axes.len()));
            let want: [Vec<usize>; 3] = [
                s.axes.iter().map(|a| a.1).collect(),
                s.axes.iter().map(|a| a.0.len_spec(a.1)).collect(),
                s.axes.iter().map(|a| a.0.len_orth(a.1)).collect(),
            ];
            ctx.check("space shapes", sp.shapes() == want, || {
                format!("{s:?}: got {:?} want {want:?}", sp.shapes())
            })?;
            for (i, a) in sp.fresh().iter().enumerate() {
                ctx.check("fresh array", a.shape == want[i] && a.data.iter().all(|x| *x == ZERO), || {
                    format!("{s:?}: {:?}", a.shape)
                })?;
            }
            let all = sp.coords();
            ctx.check("coords per axis", all.len() == s.axes.len(), || format!("{}", all.len()))?;
            for (i, (k, n)) in s.axes.iter().enumerate() {
                grid_ok(ctx, *k, *n, s.prec.eps(), &all[i])?;
                grid_ok(ctx, *k, *n, s.prec.eps(), &sp.coords_axis(i))?;
                ctx.check("axis kind", sp.kind_dbg(i) == k.base_kind_name(), || {
                    format!("axis {i}: {}", sp.kind_dbg(i))
                })?;
                ctx.check("axis transform", sp.transform_dbg(i) == k.transform_name(), || {
                    format!("axis {i}: {}", sp.transform_dbg(i))
                })?;
            }
            Ok(())
        }
    }
}

fn g01(tier: Tier, _s: usize) -> BoxedStrategy<GridCase> {
    let hi: fn(Tier, Kind) -> usize = |t, _| t.pick(1500, 6000);
    let base = prop_oneof![
        4 => (kind_n(&ALL_KINDS, min_of, hi, tier), prec())
            .prop_map(|((kind, n), prec)| GridCase::Base { kind, n, prec }),
        1 => space(0, [40, 20, 12]).prop_map(GridCase::Space),
    ];
    (base, prop_oneof![1200 => Just(0usize), 1 => huge(140_000)])
        .prop_map(|(mut c, h)| {
            if let GridCase::Base { n, .. } = &mut c {
                if h > 0 {
                    *n = h;
                }
            }
            c
        })
        .boxed()
}
pub static C01: Prop<GridCase> = Prop {
    id: "C01",
    rule: "a base (8 kinds, f32/f64, sizes from the smallest supported, all small sizes and powers of two with neighbours over-represented, one in 1200 up to 140000) or a 1/2/3-D space; non-trivial: more than 2 points, or more than one axis",
    cases: (576_000, 4_320_000),
    gen: g01,
    exec: c01,
    assumptions: &["reference nodes evaluated in f64 with libm sin"],
};

// ================================================================= C02

const ORTHO: [Kind; 3] = [Kind::Cheb, Kind::R2c, Kind::C2c];

fn c02(c: &C1, ctx: &mut Ctx) -> Res {
    let b = c.base();
    let (n, eps) = (c.n, c.eps());
    ctx.label(format!("{:?}/{:?}", c.kind, c.prec));
    if n > LARGE {
        return c02_large(c, ctx);
    }
    // forward
    let u = c.vec(n, c.kind.phys_complex(), 1);
    let got = c.run(&*b, Op::Forward, false, &u);
    let want = match c.kind {
        Kind::Cheb => cheb_forward(&u),
        Kind::R2c => dft(&u, n / 2 + 1),
        _ => dft(&u, n),
    };
    ctx.nontrivial = n > 2 && want.iter().filter(|x| x.norm() > 0.).count() > 1;
    let s = match c.kind {
        Kind::Cheb => 2. / (n - 1) as f64,
        _ => 1.,
    };
    let tol = 4. * eps * lg(n) * (n as f64).sqrt() * s * norm2(&u) + f64::MIN_POSITIVE;
    ctx.check("forward length", got.len() == want.len(), || format!("{}", got.len()))?;
    for i in 0..want.len() {
        ctx.closec("forward", i, got[i], want[i], tol)?;
    }
    // backward
    let (_, l) = Op::Forward.lens(c.kind, n);
    let a = c.vec(l, c.kind.spec_complex(), 2);
    let got = c.run(&*b, Op::Backward, false, &a);
    let want = match c.kind {
        Kind::Cheb => cheb_backward(&a),
        Kind::R2c => idft(&hermitian(&a, n)),
        _ => idft(&a),
    };
    let s = match c.kind {
        Kind::Cheb => 2.,
        _ => 2. / n as f64,
    };
    let tol = 4. * eps * lg(n) * (n as f64).sqrt() * s * norm2(&a) + f64::MIN_POSITIVE;
    ctx.check("backward length", got.len() == n, || format!("{}", got.len()))?;
    for i in 0..n {
        ctx.closec("backward", i, got[i], want[i], tol)?;
    }
    Ok(())
}
const LARGE: usize = 2200;

/// large sizes: every output is defined by an O(n) sum, check a sample of them
fn c02_large(c: &C1, ctx: &mut Ctx) -> Res {
    let b = c.base();
    let (n, eps) = (c.n, c.eps());
    ctx.label("large size");
    ctx.nontrivial = true;
    let picks = |len: usize| -> Vec<usize> {
        let mut p = vec![0, 1, 2, len / 2, len / 2 + 1, len - 2, len - 1];
        let mut x = 88172645463325252u64 ^ c.data.seed as u64;
        for _ in 0..24 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            p.push((x % len as u64) as usize);
        }
        p
    };
    let u = c.vec(n, c.kind.phys_complex(), 1);
    let got = c.run(&*b, Op::Forward, false, &u);
    let (_, l) = Op::Forward.lens(c.kind, n);
    let s = match c.kind {
        Kind::Cheb => 2. / (n - 1) as f64,
        _ => 1.,
    };
    let tol = 4. * eps * lg(n) * (n as f64).sqrt() * s * norm2(&u) + f64::MIN_POSITIVE;
    ctx.check("forward length", got.len() == l, || format!("{}", got.len()))?;
    let want = match c.kind {
        Kind::Cheb => cheb_forward_at(&u, &picks(l)),
        _ => dft_at(&u, &picks(l), -1.),
    };
    for (i, w) in want {
        ctx.closec("forward", i, got[i], w, tol)?;
    }
    let a = c.vec(l, c.kind.spec_complex(), 2);
    let got = c.run(&*b, Op::Backward, false, &a);
    ctx.check("backward length", got.len() == n, || format!("{}", got.len()))?;
    let s = match c.kind {
        Kind::Cheb => 2.,
        _ => 2. / n as f64,
    };
    let tol = 4. * eps * lg(n) * (n as f64).sqrt() * s * norm2(&a) + f64::MIN_POSITIVE;
    let want = match c.kind {
        Kind::Cheb => cheb_backward_at(&a, &picks(n)),
        Kind::R2c => dft_at(&hermitian(&a, n), &picks(n), 1.),
        _ => dft_at(&a, &picks(n), 1.),
    };
    let d = if c.kind == Kind::Cheb { 1. } else { n as f64 };
    for (i, w) in want {
        ctx.closec("backward", i, got[i], w / d, tol)?;
    }
    Ok(())
}

pub static C02: Prop<C1> = Prop {
    id: "C02",
    rule: "an orthogonal base, a size and a vector (unit, integer, uniform, decaying, sparse, alternating or wide-range values, scaled by a power of two), run through one of the five call styles; one size in 1500 reaches up to 140000 (there a sample of 31 outputs is compared); non-trivial: more than 2 points and more than one non-zero coefficient",
    cases: (432_000, 3_240_000),
    gen: |t, _| with_huge(c1(&ORTHO, min_of, long, 0, t), 1500, 140_000),
    exec: c02,
    assumptions: &["O(n^2) reference transforms in f64"],
};

// ================================================================= C03

/// condition of S^T S as a function of the size, generous
fn cond(k: Kind, n: usize) -> f64 {
    let n = n as f64;
    match k.nbc() {
        0 => 1.,
        2 => 1. + n * n,
        _ => 1. + n * n * n * n / 8.,
    }
}

fn c03(c: &C1, ctx: &mut Ctx) -> Res {
    let b = c.base();
    let (n, eps, k) = (c.n, c.eps(), c.kind);
    ctx.label(format!("{k:?}/{:?}", c.prec));
    let m = k.len_spec(n);
    let amp = eps * cond(k, n);
    // spectral -> physical -> spectral
    let mut v = c.vec(m, k.spec_complex(), 1);
    if k == Kind::R2c {
        v[0].im = 0.;
        if n % 2 == 0 {
            v[m - 1].im = 0.;
        }
    }
    ctx.nontrivial = v.iter().filter(|x| x.norm() > 0.).count() > 1;
    if amp < 1e-3 {
        let u = c.run(&*b, Op::Backward, false, &v);
        let w = c.run(&*b, Op::Forward, false, &u);
        // ||S v|| <= 4 ||v||; the transform pair adds log n
        let tol = 8. * amp * lg(n) * norm2(&v) + c.floor();
        for i in 0..m {
            ctx.closec("forward(backward(v))", i, w[i], v[i], tol)?;
        }
        ctx.label("spectral round trip");
    }
    // physical -> spectral -> physical
    let u = c.vec(n, k.phys_complex(), 2);
    let p = c.run(&*b, Op::Backward, false, &c.run(&*b, Op::Forward, false, &u));
    let tol = 8. * eps * lg(n) * norm2(&u) + c.floor();
    if k.is_composite() {
        // the truncation to the composite space is a projection
        let q = c.run(&*b, Op::Backward, false, &c.run(&*b, Op::Forward, false, &p));
        if amp < 1e-3 {
            let tol = tol * cond(k, n).sqrt() * 4.;
            for i in 0..n {
                ctx.closec("P(P(u)) = P(u)", i, q[i], p[i], tol)?;
            }
        }
    } else {
        for i in 0..n {
            ctx.closec("backward(forward(u))", i, p[i], u[i], tol)?;
        }
    }
    // coefficients -> orthogonal -> coefficients
    let cx = c.cplx || k.is_fourier();
    let v = c.vec(m, cx, 3);
    if amp < 1e-3 {
        let o = c.run(&*b, Op::ToOrtho, cx, &v);
        let w = c.run(&*b, Op::FromOrtho, cx, &o);
        let tol = if k.is_composite() { 8. * amp * norm2(&v) + c.floor() } else { 0. };
        for i in 0..m {
            ctx.closec("from_ortho(to_ortho(v))", i, w[i], v[i], tol)?;
        }
    }
    Ok(())
}
pub static C03: Prop<C1> = Prop {
    id: "C03",
    rule: "any base, size (one in 1500 up to 140000), precision and coefficient or point vector, in one of the five call styles; the direct spectral comparison is made where eps * condition (n^2 or n^4) < 1e-3; non-trivial: at least two non-zero coefficients",
    cases: (1_536_000, 5_760_000),
    gen: |t, _| with_huge(c1(&ALL_KINDS, min_of, long, 0, t), 1500, 140_000),
    exec: c03,
    assumptions: &["composite round trips are compared up to the conditioning of the normal equations"],
};

// ================================================================= C04

fn bc_conditions(k: Kind) -> &'static [(i32, usize)] {
    // (end, derivative order)
    match k {
        Kind::Dir => &[(-1, 0), (1, 0)],
        Kind::Neu => &[(-1, 1), (1, 1)],
        Kind::DirNeu => &[(-1, 0), (1, 1)],
        Kind::BihA => &[(-1, 0), (1, 0), (-1, 1), (1, 1)],
        Kind::BihB => &[(-1, 0), (1, 0), (-1, 2), (1, 2)],
        _ => &[],
    }
}
/// sum of a Chebyshev series at an end
fn at_end(a: &[C64], end: i32) -> C64 {
    a.iter()
        .enumerate()
        .map(|(m, x)| if end < 0 && m % 2 == 1 { -x } else { *x })
        .sum()
}

fn c04(c: &C1, ctx: &mut Ctx) -> Res {
    let b = c.base();
    let (n, eps, k) = (c.n, c.eps(), c.kind);
    let m = k.len_spec(n);
    ctx.label(format!("{k:?}/{:?}", c.prec));
    // coefficients given directly, or obtained by projecting a field
    let projected = c.k % 2 == 1;
    let cx = c.cplx && !projected;
    let v = if projected {
        let u = c.vec(n, false, 1);
        c.run(&*b, Op::Forward, false, &u)
    } else {
        c.vec(m, cx, 1)
    };
    ctx.label(if projected { "projected field" } else { "free coefficients" });
    ctx.nontrivial = norm_inf(&v) > 0.;
    let st = Stencil::new(k, n);
    let oabs = st.dot_abs(&abs(&v));
    for (end, d) in bc_conditions(k) {
        // through the derivative coefficients
        let g = c.run(&*b, Op::Gradient(*d as u8), cx, &v);
        let bound: f64 = cheb_diff_abs(&oabs, *d).iter().sum();
        ctx.closec(
            &format!("{k:?} u^({d})({end})"),
            0,
            at_end(&g, *end),
            ZERO,
            4. * eps * (8. + n as f64 / 4.) * bound,
        )?;
        // through the field values
        if *d == 0 && !cx {
            let u = c.run(&*b, Op::Backward, false, &v);
            let i = if *end < 0 { 0 } else { n - 1 };
            let s: f64 = norm2(&v);
            ctx.closec(
                &format!("{k:?} field at {end}"),
                i,
                u[i],
                ZERO,
                16. * eps * lg(n) * (n as f64).sqrt() * s,
            )?;
        }
    }
    // derivative conditions through the field: interpolate, differentiate
    if !cx && n <= 200 {
        let u = c.run(&*b, Op::Backward, false, &v);
        let a = cheb_forward(&u);
        for (end, d) in bc_conditions(k) {
            if *d > 0 {
                let g = cheb_diff_n(&a, *d);
                // a rounding error in the field is amplified by n^(2d)
                let amp = (n as f64).powi(2 * *d as i32) * n as f64;
                ctx.closec(
                    &format!("{k:?} interpolated u^({d})({end})"),
                    0,
                    at_end(&g, *end),
                    ZERO,
                    4. * eps * lg(n) * amp * norm2(&v),
                )?;
            }
        }
    }
    Ok(())
}
pub static C04: Prop<C1> = Prop {
    id: "C04",
    rule: "a composite base, a size (one in 1500 up to 140000) and either free composite coefficients (real or complex) or the projection of an arbitrary field; every boundary condition evaluated from derivative coefficients and from field values; non-trivial: coefficients not all zero",
    cases: (1_344_000, 5_040_000),
    gen: |t, _| with_huge(c1(&COMPOSITE, min_of, long, 3, t), 1500, 140_000),
    exec: c04,
    assumptions: &["end values of derivatives compared against the absolute-value sum of their terms"],
};

// ================================================================= C05

/// residual of the normal equations S^T (S v - u)
fn normal_residual(
    ctx: &mut Ctx,
    what: &str,
    st: &Stencil,
    v: &[C64],
    u: &[C64],
    eps: f64,
    extra: f64,
) -> Res {
    let mut r = st.dot(v);
    for (a, b) in r.iter_mut().zip(u) {
        *a -= b;
    }
    let res = st.tdot(&r);
    let sv = st.dot_abs(&abs(v));
    let b1 = st.tdot_abs(&sv);
    let b2 = st.tdot_abs(&abs(u));
    let m = v.len();
    for i in 0..m {
        // neighbourhood maximum: elimination mixes neighbouring rows
        let lo = i.saturating_sub(4);
        let hi = (i + 5).min(m);
        let near = (lo..hi).map(|j| b1[j]).fold(0., f64::max);
        let tol = 16. * eps * (1. + m as f64 / 2000.) * (near + b2[i]) + extra;
        ctx.within(what, i, res[i].norm(), tol, || format!("residual {:e}", res[i]))?;
    }
    Ok(())
}

fn c05(c: &C1, ctx: &mut Ctx) -> Res {
    let b = c.base();
    let (n, eps, k) = (c.n, c.eps(), c.kind);
    ctx.label(format!("{k:?}/{:?}", c.prec));
    let st = Stencil::new(k, n);
    if c.k % 2 == 0 || n > LARGE {
        // from orthogonal coefficients
        let u = c.vec(n, c.cplx, 1);
        ctx.nontrivial = u.iter().filter(|x| x.norm() > 0.).count() > 1;
        ctx.label(if c.cplx { "ortho complex" } else { "ortho real" });
        let v = c.run(&*b, Op::FromOrtho, c.cplx, &u);
        ctx.check("length", v.len() == st.m, || format!("{}", v.len()))?;
        normal_residual(ctx, "normal equations (from_ortho)", &st, &v, &u, eps, c.floor())
    } else {
        // from a field
        let u = c.vec(n, false, 1);
        ctx.nontrivial = u.iter().filter(|x| x.norm() > 0.).count() > 1;
        ctx.label("field");
        let v = c.run(&*b, Op::Forward, false, &u);
        ctx.check("length", v.len() == st.m, || format!("{}", v.len()))?;
        let o = cheb_forward(&u);
        let extra = 16. * eps * lg(n) * norm2(&u) / (n as f64).sqrt() + c.floor();
        normal_residual(ctx, "normal equations (forward)", &st, &v, &o, eps, extra)
    }
}
pub static C05: Prop<C1> = Prop {
    id: "C05",
    rule: "a composite base, a size (one in 1500 up to 140000) and an arbitrary orthogonal-coefficient vector (real or complex) or field, generally outside the composite space; non-trivial: at least two non-zero entries",
    cases: (1_008_000, 5_040_000),
    gen: |t, _| with_huge(c1(&COMPOSITE, min_of, long, 1, t), 1500, 140_000),
    exec: c05,
    assumptions: &["basis coefficients recomputed from the boundary conditions in exact integer arithmetic"],
};

// ================================================================= C06

fn c06(c: &C1, ctx: &mut Ctx) -> Res {
    let b = c.base();
    let (n, eps, k) = (c.n, c.eps(), c.kind);
    ctx.label(format!("{k:?}/{:?}", c.prec));
    let m = k.len_spec(n);
    let cx = c.cplx || k.is_fourier();
    let v = c.vec(m, cx, 1);
    ctx.nontrivial = v.iter().any(|x| x.norm() > 0.);
    let got = c.run(&*b, Op::ToOrtho, cx, &v);
    if !k.is_composite() {
        ctx.check("orthogonal coefficients unchanged", got == v, || {
            format!("{k:?} n={n}: to_ortho is not the identity")
        })?;
        let got = c.run(&*b, Op::FromOrtho, cx, &v);
        ctx.check("orthogonal coefficients unchanged back", got == v, || {
            format!("{k:?} n={n}: from_ortho is not the identity")
        })?;
        if n <= 64 || (n <= 700 && c.data.seed % 32 == 0) {
            for what in [Mat::Stencil, Mat::StencilInv] {
                let s = b.mat(what);
                for i in 0..s.r {
                    for j in 0..s.c {
                        let w = if i == j { 1. } else { 0. };
                        ctx.check("identity stencil", s.at(i, j) == C64::new(w, 0.), || {
                            format!("{k:?} n={n} {what:?}[{i},{j}]={}", s.at(i, j))
                        })?;
                    }
                }
                ctx.check("stencil shape", (s.r, s.c) == (m, m), || format!("{},{}", s.r, s.c))?;
            }
        }
        return Ok(());
    }
    let st = Stencil::new(k, n);
    let want = st.dot(&v);
    let bound = st.dot_abs(&abs(&v));
    for i in 0..n {
        ctx.closec("to_ortho", i, got[i], want[i], 8. * eps * bound[i] + c.floor())?;
    }
    if n > 260 && !(n <= 700 && c.data.seed % 32 == 0) {
        return Ok(());
    }
    // matrices
    let s = b.mat(Mat::Stencil);
    ctx.check("stencil shape", (s.r, s.c) == (n, m), || format!("{},{}", s.r, s.c))?;
    let mut dense = vec![0f64; n * m];
    for (j, col) in st.cols.iter().enumerate() {
        for (i, x) in col {
            dense[i * m + j] = *x;
        }
    }
    for i in 0..n {
        for j in 0..m {
            let w = dense[i * m + j];
            ctx.closec("stencil", i * m + j, s.at(i, j), C64::new(w, 0.), 4. * eps * w.abs())?;
        }
    }
    let inv = b.mat(Mat::StencilInv);
    ctx.check("stencil_inv shape", (inv.r, inv.c) == (m, n), || format!("{},{}", inv.r, inv.c))?;
    for i in 0..m {
        for j in 0..m {
            let (mut p, mut a) = (ZERO, 0.);
            for (r, x) in &st.cols[j] {
                p += inv.at(i, *r) * x;
                a += inv.at(i, *r).norm() * x.abs();
            }
            let w = if i == j { 1. } else { 0. };
            ctx.closec("stencil_inv * stencil", i * m + j, p, C64::new(w, 0.), 8. * eps * (a + w))?;
        }
    }
    ctx.label("matrices");
    Ok(())
}
pub static C06: Prop<C1> = Prop {
    id: "C06",
    rule: "any base, size (one in 1500 up to 140000) and coefficient vector (real or complex) in one of the five call styles, matrices compared for sizes up to 260 and sometimes 700; non-trivial: non-zero coefficients",
    cases: (384_000, 2_880_000),
    gen: |t, _| {
        with_huge(with_huge(prop_oneof![
            4 => c1(&COMPOSITE, min_eval, long, 0, t),
            1 => c1(&ORTHO, min_of, long, 0, t),
        ].boxed(), 1500, 140_000), 1500, 700)
    },
    exec: c06,
    assumptions: &["basis coefficients recomputed from the boundary conditions in exact integer arithmetic"],
};

// ================================================================= C07

fn c07(c: &C1, ctx: &mut Ctx) -> Res {
    let b = c.base();
    let (n, eps, k, d) = (c.n, c.eps(), c.kind, order(c.k));
    ctx.label(if d < 200 { format!("{k:?}/d{d}") } else { format!("{k:?}/d250+") });
    let m = k.len_spec(n);
    let cx = c.cplx || k.is_fourier();
    let v = c.vec(m, cx, 1);
    let got = c.run(&*b, Op::Gradient(c.k), cx, &v);
    ctx.check("gradient length", got.len() == k.len_orth(n), || format!("{}", got.len()))?;
    if k.is_fourier() {
        let wn = wavenumbers(k, n);
        ctx.nontrivial = d > 0 && (0..m).filter(|i| wn[*i] != 0. && v[*i] != ZERO).count() > 0;
        for i in 0..m {
            let want = v[i] * ik_pow(wn[i], d);
            let tol = eps * (2. + 2. * d as f64) * want.norm() + c.floor();
            ctx.closec("fourier derivative", i, got[i], want, tol)?;
        }
        return Ok(());
    }
    let st = Stencil::new(k, n);
    let want = cheb_diff_n(&st.dot(&v), d);
    let bound = cheb_diff_abs(&st.dot_abs(&abs(&v)), d);
    ctx.nontrivial = d > 0 && want.iter().any(|x| x.norm() > 0.);
    for i in 0..n {
        let tol = eps * (1. + d as f64) * (8. + n as f64 / 8.) * bound[i] + c.floor();
        ctx.closec("chebyshev derivative", i, got[i], want[i], tol)?;
    }
    Ok(())
}
pub static C07: Prop<C1> = Prop {
    id: "C07",
    rule: "any base, size (one in 1500 up to 140000), derivative order 0..6 (rarely 7..36 or 250..305) and coefficient vector (real or complex), in one of the five call styles; non-trivial: order at least one and a non-zero derivative",
    cases: (1_920_000, 7_200_000),
    gen: |t, _| with_huge(c1(&ALL_KINDS, min_eval, long, 6, t), 1500, 140_000).prop_map(|mut c| {
        if c.prec == Prec::F32 { c.k = c.k.min(4); c.n = c.n.min(400); }
        if c.n < 40 && c.data.seed % 97 == 5 {
            // orders beyond a byte, on sizes where nothing overflows
            c.k = 200 + (c.data.seed / 97 % 56) as u8;
            if c.kind.is_fourier() { c.n = 1 + c.n % 3; }
        } else if c.n < 40 && c.data.seed % 97 == 6 && c.prec == Prec::F64 {
            c.k = 7 + (c.data.seed / 97 % 30) as u8;
        }
        c
    }).boxed(),
    exec: c07,
    assumptions: &["Fourier Nyquist mode of even sizes: wavenumber n/2 (r2c) and -n/2 (c2c)"],
};

// ================================================================= C08

/// a Fourier matrix of a higher order, where nothing overflows
fn high_order(c: &mut C1) {
    if c.prec == Prec::F64 && c.n <= 2200 && c.data.seed % 19 == 4 {
        c.k = 7 + (c.data.seed / 19 % 16) as u8;
    }
}

fn c08(c: &C1, ctx: &mut Ctx) -> Res {
    let b = c.base();
    let (n, eps, k, d) = (c.n, c.eps(), c.kind, c.k as usize);
    ctx.label(format!("{k:?}/d{d}"));
    let o = k.len_orth(n);
    // d = 0 stands for the laplacian
    let (m, d) = if d == 0 {
        (b.mat(Mat::Lap), 2)
    } else {
        (b.mat(Mat::Diff(c.k)), d)
    };
    ctx.check("matrix shape", (m.r, m.c) == (o, o), || format!("{},{}", m.r, m.c))?;
    ctx.nontrivial = n > d;
    if k.is_fourier() {
        let wn = wavenumbers(k, n);
        for i in 0..o {
            for j in 0..o {
                let want = if i == j { ik_pow(wn[i], d) } else { ZERO };
                ctx.closec("fourier matrix", i * o + j, m.at(i, j), want, (8. + 2. * d as f64) * eps * want.norm())?;
            }
        }
        return Ok(());
    }
    for q in 0..n {
        let col = cheb_diff_exact(q, d);
        for p in 0..n {
            let want = if p <= q { col[p] as f64 } else { 0. };
            ctx.closec(
                "chebyshev matrix",
                p * n + q,
                m.at(p, q),
                C64::new(want, 0.),
                4. * eps * want.abs(),
            )?;
        }
    }
    Ok(())
}
pub static C08: Prop<C1> = Prop {
    id: "C08",
    rule: "any base, size (one in 1000 up to 2200) and derivative order (Chebyshev-type 1..4, Fourier 1..6, rarely to 22, and the laplacian), every matrix entry compared; non-trivial: size larger than the order",
    cases: (230_400, 1_152_000),
    gen: |t, _| with_huge(c1(&ALL_KINDS, min_eval, |t, k| if k.is_fourier() { 300 } else { t.pick(260, 900) }, 6, t), 1000, 2200).prop_map(|mut c| {
        if c.kind.is_r2r() { c.k %= 5; } else { high_order(&mut c); }
        c
    }).boxed(),
    exec: c08,
    assumptions: &["reference columns by the three-term derivative recurrence in i128"],
};

// ================================================================= C09

fn c09(c: &C1, ctx: &mut Ctx) -> Res {
    let b = c.base();
    let (n, eps, k, d) = (c.n, c.eps(), c.kind, c.k as usize);
    ctx.label(format!("{k:?}/d{d}"));
    let o = k.len_orth(n);
    let (pinv, peye, d) = if d == 0 {
        (b.mat(Mat::LapPinv), b.mat(Mat::LapPeye), 2)
    } else {
        (b.mat(Mat::DiffPinv(c.k)), b.mat(Mat::DiffPeye(c.k)), d)
    };
    // number of modes in the kernel of the derivative
    let ker = if k.is_fourier() { 1 } else { d };
    ctx.nontrivial = o > ker + 1;
    ctx.check("pinv shape", (pinv.r, pinv.c) == (o, o), || format!("{},{}", pinv.r, pinv.c))?;
    ctx.check("peye shape", (peye.r, peye.c) == (o - ker, o), || {
        format!("{},{}", peye.r, peye.c)
    })?;
    for i in 0..peye.r {
        for j in 0..o {
            let w = if i + ker == j { 1. } else { 0. };
            ctx.check("peye", peye.at(i, j) == C64::new(w, 0.), || {
                format!("peye[{i},{j}]={}", peye.at(i, j))
            })?;
        }
    }
    if k.is_fourier() {
        let wn = wavenumbers(k, n);
        for i in 1..o {
            for j in 0..o {
                let want = if i == j { 1. / ik_pow(wn[i], d) } else { ZERO };
                ctx.closec("fourier pinv", i * o + j, pinv.at(i, j), want, (16. + 2. * d as f64) * eps * want.norm())?;
            }
        }
        return Ok(());
    }
    let mut want = vec![0f64; n * n];
    for j in 0..n - d {
        for (i, x) in cheb_antideriv(j, d) {
            if i < n {
                want[i * n + j] = x;
            }
        }
    }
    for i in 0..n {
        for j in 0..n {
            let w = want[i * n + j];
            ctx.closec("chebyshev pinv", i * n + j, pinv.at(i, j), C64::new(w, 0.), 16. * eps * w.abs())?;
        }
    }
    // and directly: pinv * D = identity beyond the kernel, on moderate sizes
    if n <= 60 && c.prec == Prec::F64 {
        for q in 0..n {
            let col = cheb_diff_exact(q, d);
            for i in 0..n {
                let (mut s, mut a) = (0., 0.);
                for p in i.saturating_sub(d)..(i + d + 1).min(q + 1) {
                    s += pinv.at(i, p).re * col[p] as f64;
                    a += pinv.at(i, p).norm() * (col[p] as f64).abs();
                }
                let w = if i == q && q >= d { 1. } else { 0. };
                ctx.close("pinv * diffmat", i * n + q, s, w, 16. * eps * (a + 1.))?;
            }
        }
    }
    Ok(())
}
pub static C09: Prop<C1> = Prop {
    id: "C09",
    rule: "any base, size (one in 1000 up to 2200) and derivative order (Chebyshev-type 1..4 with size above the order, Fourier 1..6, rarely to 22, and the laplacian), every entry compared; non-trivial: at least two modes outside the kernel",
    cases: (230_400, 1_152_000),
    gen: |t, _| with_huge(c1(&ALL_KINDS, min_eval, |t, _| t.pick(220, 900), 6, t), 1000, 2200).prop_map(|mut c| {
        if c.kind.is_r2r() {
            c.k %= 5;
            let d = if c.k == 0 { 2 } else { c.k as usize };
            c.n = c.n.max(d + 1);
        } else {
            high_order(&mut c);
        }
        c
    }).boxed(),
    exec: c09,
    assumptions: &["reference: repeated antiderivatives of T_j (no cancellation)"],
};

// ================================================================= C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Solve {
    pub kind: Kind,
    pub n: usize,
    /// Fourier modes in the other direction, 0 = one-dimensional
    pub nx: usize,
    pub c2c: bool,
    pub data: Data,
    /// diffusivity of (1 - c laplace) u = f in 1/16; 0 = Poisson
    pub c16: u16,
}

fn gauss(a: &mut [C64], n: usize, b: &mut [C64]) {
    for p in 0..n {
        let mut r = p;
        for i in p + 1..n {
            if a[i * n + p].norm() > a[r * n + p].norm() {
                r = i;
            }
        }
        if r != p {
            for j in 0..n {
                a.swap(p * n + j, r * n + j);
            }
            b.swap(p, r);
        }
        for i in p + 1..n {
            let f = a[i * n + p] / a[p * n + p];
            if f != ZERO {
                for j in p..n {
                    let t = a[p * n + j];
                    a[i * n + j] -= f * t;
                }
                let t = b[p];
                b[i] -= f * t;
            }
        }
    }
    for p in (0..n).rev() {
        for j in p + 1..n {
            let t = b[j];
            b[p] -= a[p * n + j] * t;
        }
        b[p] /= a[p * n + p];
    }
}

/// Manufactured solution: f = u - c lap(u) (or lap(u)) computed with the
/// space's own operators, then solved back per Fourier mode with the
/// documented ingredients peye*pinv*stencil and peye*stencil.
fn c10(c: &Solve, ctx: &mut Ctx) -> Res {
    let (k, n) = (c.kind, c.n);
    let mut axes = vec![(k, n)];
    if c.nx > 0 {
        axes.insert(0, (Kind::R2c, c.nx));
        if c.c2c {
            axes.insert(0, (Kind::C2c, 1 + (c.nx * 3) % 7));
        }
    }
    let spec = SpaceSpec { axes, prec: Prec::F64 };
    let sp = spec.build();
    let ax = spec.axes.len() - 1;
    let sh = sp.shapes();
    let cx = spec.spec_complex();
    let total: usize = sh[1].iter().product();
    let poisson = c.c16 == 0;
    ctx.label(format!("{k:?}/{}D/{}", ax + 1, if poisson { "poisson" } else { "helmholtz" }));
    let mut v = values(&c.data, total, cx, Prec::F64, 1);
    let m = sh[1][ax];
    let rows = total / m;
    if k == Kind::Cheb {
        // the pure Chebyshev ingredients determine modes >= 2 only
        for r in 0..rows {
            v[r * m] = ZERO;
            v[r * m + 1] = ZERO;
        }
    }
    ctx.nontrivial = v.iter().filter(|x| **x != ZERO).count() > 1;
    let va = Arr::new(&sh[1], v.clone());
    let cc = c.c16 as f64 / 16.;
    let mut d2 = vec![0u8; ax + 1];
    d2[ax] = 2;
    let mut lap = sp.gradient(&va, &d2, None, false, false);
    let mut wn: Vec<Vec<f64>> = vec![];
    for a in 0..ax {
        let mut d = vec![0u8; ax + 1];
        d[a] = 2;
        let dx = sp.gradient(&va, &d, None, true, false);
        for (a, b) in lap.data.iter_mut().zip(&dx.data) {
            *a += b;
        }
        wn.push(wavenumbers(spec.axes[a].0, spec.axes[a].1));
    }
    let u = sp.op(Op::ToOrtho, false, Mode::Alloc, &va);
    let f: Vec<C64> = if poisson {
        lap.data.clone()
    } else {
        u.data.iter().zip(&lap.data).map(|(a, b)| a - b * cc).collect()
    };
    // ingredients along the non-periodic axis
    let sten = sp.mat(ax, Mat::Stencil);
    let (pinv, peye) = (sp.mat(ax, Mat::LapPinv), sp.mat(ax, Mat::LapPeye));
    let pre = peye.mul(&pinv);
    let (ma, mb) = (pre.mul(&sten), peye.mul(&sten));
    let xlap: Vec<Matrix> = (0..ax).map(|a| sp.mat(a, Mat::Lap)).collect();
    for r in 0..rows {
        let fr = &f[r * n..(r + 1) * n];
        let vr = &v[r * m..(r + 1) * m];
        let rhs = pre.mv(fr);
        let (mut k2, mut rest) = (0., r);
        for a in (0..ax).rev() {
            let i = rest % wn[a].len();
            rest /= wn[a].len();
            let (l, w) = (xlap[a].at(i, i), wn[a][i]);
            ctx.closec("periodic laplacian", i, l, C64::new(-w * w, 0.), 1e-12 * (1. + w * w))?;
            k2 -= l.re;
        }
        // poisson: (B - k2 A) v = rhs ; helmholtz: ((1 + c k2) A - c B) v = rhs
        let (ca, cb) = if poisson { (-k2, 1.) } else { (1. + cc * k2, -cc) };
        let mut a: Vec<C64> = ma.a.iter().zip(&mb.a).map(|(x, y)| x * ca + y * cb).collect();
        let lhs: Vec<C64> = (0..ma.r)
            .map(|i| (0..m).map(|j| a[i * m + j] * vr[j]).sum())
            .collect();
        let scale = (1. + k2) * (1. + cc) * norm2(vr) + norm_inf(&rhs);
        // cancellation in pinv * laplacian: second derivatives grow like n^3
        let tol = 1e-15 * (n as f64).powi(3) * scale;
        for i in 0..ma.r {
            ctx.closec("preconditioned equation", i, lhs[i], rhs[i], tol)?;
        }
        let kernel = poisson && k2 == 0. && k == Kind::Neu;
        if ma.r == m && !kernel {
            let mut w = rhs.clone();
            gauss(&mut a, m, &mut w);
            // the preconditioned systems are well conditioned up to n
            let tol = tol * n as f64;
            for i in 0..m {
                ctx.closec("recovered solution", i, w[i], vr[i], tol)?;
            }
        }
    }
    Ok(())
}

fn g10(_t: Tier, _s: usize) -> BoxedStrategy<Solve> {
    (
        select(&R2R[..]).prop_flat_map(|k| (Just(k), prop_oneof![100 => k.min_n()..=44usize, 1 => 45usize..=140])),
        prop_oneof![1 => Just(0usize), 1 => 2usize..12],
        any::<bool>(),
        prop_oneof![2 => dense_data(), 1 => any_data()],
        prop_oneof![1 => Just(0u16), 3 => 1u16..64],
    )
        .prop_map(|((kind, n), nx, c2c, mut data, c16)| {
            data.exp = 0;
            Solve {
                kind,
                n: n.max(5),
                nx: if n > 44 { nx.min(4) } else { nx },
                c2c: c2c && n <= 44,
                data,
                c16: if kind == Kind::Cheb && c16 == 0 { 1 } else { c16 },
            }
        })
        .boxed()
}
pub static C10: Prop<Solve> = Prop {
    id: "C10",
    rule: "a non-periodic base (1-D, or 2-D with a real Fourier direction, or 3-D with a complex and a real one), a manufactured coefficient field, Helmholtz with diffusivity 1/16..4 or Poisson; right-hand side from the library's derivatives, solution recovered per mode by dense elimination with the library's matrices; non-trivial: at least two non-zero coefficients",
    cases: (576_000, 2_160_000),
    gen: g10,
    exec: c10,
    assumptions: &["biharmonic bases give a rectangular second-order system: only the equation, not the solve, is compared"],
};
