//! Uniform access to the one-, two- and three-dimensional spaces.
use crate::any::*;
use funspace::enums::TransformKind;
use funspace::*;
use ndarray::{ArrayBase, Dim};
use num_complex::Complex;
use serde::{Deserialize, Serialize};

pub trait AnySpace: crate::SpaceBound {
    /// physical, spectral, orthogonal shapes
    fn shapes(&self) -> [Vec<usize>; 3];
    /// arrays handed out by the space
    fn fresh(&self) -> [Arr; 2];
    fn coords(&self) -> Vec<Vec<f64>>;
    fn coords_axis(&self, a: usize) -> Vec<f64>;
    fn kind_dbg(&self, a: usize) -> String;
    fn transform_dbg(&self, a: usize) -> &'static str;
    fn mat(&self, a: usize, m: Mat) -> Matrix;
    fn op(&self, op: Op, cplx: bool, mode: Mode, arr: &Arr) -> Arr;
    fn op_into(&self, op: Op, cplx: bool, par: bool, arr: &Arr, out: &Arr) -> Arr;
    fn gradient(&self, arr: &Arr, deriv: &[u8], scale: Option<&[f64]>, par: bool, cplx: bool) -> Arr;
    /// operands in the given memory layouts
    #[allow(clippy::too_many_arguments)]
    fn op_view(&self, op: Op, cplx: bool, alloc: bool, par: bool, arr: &Arr, out: &Arr, lay: (Layout, Layout)) -> Arr;
    fn gradient_view(&self, arr: &Arr, deriv: &[u8], par: bool, cplx: bool, lay: Layout) -> Arr;
    fn clone_box(&self) -> Box<dyn AnySpace>;
}

fn tk(t: TransformKind) -> &'static str {
    match t {
        TransformKind::R2r => "R2r",
        TransformKind::R2c => "R2c",
        TransformKind::C2c => "C2c",
    }
}

macro_rules! sp_modal {
    ($s:expr, $mode:expr, $arr:expr, $outshape:expr, $tin:ty, $tout:ty, $n:literal, $al:ident, $in:ident, $pal:ident, $pin:ident) => {{
        let x = to_nd::<$tin, Dim<[usize; $n]>>($arr);
        let garb = || to_nd::<$tout, Dim<[usize; $n]>>(&Arr::filled(&$outshape, junk($arr)));
        let y: ArrayBase<ndarray::OwnedRepr<$tout>, Dim<[usize; $n]>> = match $mode {
            Mode::Alloc => $s.$al(&x),
            Mode::AllocPar => $s.$pal(&x),
            Mode::Inplace => { let mut y = garb(); $s.$in(&x, &mut y); y }
            Mode::InplacePar => { let mut y = garb(); $s.$pin(&x, &mut y); y }
            Mode::Slice => unreachable!(),
        };
        from_nd(&y)
    }};
}
macro_rules! sp_into {
    ($s:expr, $par:expr, $arr:expr, $out:expr, $tin:ty, $tout:ty, $n:literal, $in:ident, $pin:ident) => {{
        let x = to_nd::<$tin, Dim<[usize; $n]>>($arr);
        let mut y = to_nd::<$tout, Dim<[usize; $n]>>($out);
        if $par { $s.$pin(&x, &mut y) } else { $s.$in(&x, &mut y) }
        from_nd(&y)
    }};
}
macro_rules! sp_view {
    ($s:expr, $alloc:expr, $par:expr, $arr:expr, $out:expr, $lay:expr, $tin:ty, $tout:ty, $n:literal, $al:ident, $pal:ident, $in:ident, $pin:ident) => {{
        type D = Dim<[usize; $n]>;
        let x = Store::<$tin>::new($arr, $lay.0);
        let xv = x.view().into_dimensionality::<D>().unwrap();
        if $alloc {
            let y: ArrayBase<ndarray::OwnedRepr<$tout>, D> = if $par { $s.$pal(&xv) } else { $s.$al(&xv) };
            from_nd(&y)
        } else {
            let mut y = Store::<$tout>::new($out, $lay.1);
            let before = y.own.clone();
            {
                let mut v = y.view_mut().into_dimensionality::<D>().unwrap();
                if $par { $s.$pin(&xv, &mut v) } else { $s.$in(&xv, &mut v) }
            }
            let got = from_nd(&y.view().to_owned());
            let orig = Store { own: before.clone(), lay: y.lay, shape: y.shape.clone() };
            y.view_mut().assign(&orig.view());
            assert!(y.own.iter().zip(before.iter()).all(|(a, b)| a.to_c() == b.to_c()), "FSV-OUTSIDE-VIEW");
            got
        }
    }};
}
macro_rules! sp_gview {
    ($s:expr, $arr:expr, $deriv:expr, $par:expr, $lay:expr, $t:ty, $a:ty, $n:literal) => {{
        let x = Store::<$t>::new($arr, $lay);
        let x = x.view().into_dimensionality::<Dim<[usize; $n]>>().unwrap();
        let mut d = [0usize; $n];
        for (a, b) in d.iter_mut().zip($deriv.iter()) { *a = *b as usize; }
        let y: ArrayBase<ndarray::OwnedRepr<$t>, Dim<[usize; $n]>> =
            if $par { BaseSpaceGradient::<$a, _, $n>::gradient_par($s, &x, d, None) } else { BaseSpaceGradient::<$a, _, $n>::gradient($s, &x, d, None) };
        from_nd(&y)
    }};
}
macro_rules! sp_grad {
    ($s:expr, $arr:expr, $deriv:expr, $scale:expr, $par:expr, $t:ty, $a:ty, $n:literal) => {{
        let x = to_nd::<$t, Dim<[usize; $n]>>($arr);
        let mut d = [0usize; $n];
        for (a, b) in d.iter_mut().zip($deriv.iter()) { *a = *b as usize; }
        let sc = $scale.map(|s| {
            let mut v = [1 as $a; $n];
            for (a, b) in v.iter_mut().zip(s.iter()) { *a = *b as $a; }
            v
        });
        let y: ArrayBase<ndarray::OwnedRepr<$t>, Dim<[usize; $n]>> =
            if $par { BaseSpaceGradient::gradient_par($s, &x, d, sc) } else { BaseSpaceGradient::gradient($s, &x, d, sc) };
        from_nd(&y)
    }};
}
/// dispatch on the coefficient scalar: real coefficients only where `true`
macro_rules! with_t {
    (true, $cplx:expr, $a:ident, $mac:ident ! ( $($pre:tt)* ) , ( $($post:tt)* )) => {
        if $cplx { with_t!(@go Complex<$a>, $mac, ($($pre)*), ($($post)*)) }
        else { with_t!(@go $a, $mac, ($($pre)*), ($($post)*)) }
    };
    (false, $cplx:expr, $a:ident, $mac:ident ! ( $($pre:tt)* ) , ( $($post:tt)* )) => {{
        let _ = $cplx;
        with_t!(@go Complex<$a>, $mac, ($($pre)*), ($($post)*))
    }};
    (@go $t:ty, sp_modal, ($($pre:tt)*), ($($post:tt)*)) => { sp_modal!($($pre)*, $t, $t, $($post)*) };
    (@go $t:ty, sp_into, ($($pre:tt)*), ($($post:tt)*)) => { sp_into!($($pre)*, $t, $t, $($post)*) };
    (@go $t:ty, sp_view, ($($pre:tt)*), ($($post:tt)*)) => { sp_view!($($pre)*, $t, $t, $($post)*) };
    (@go $t:ty, sp_gview, ($($pre:tt)*), ($($post:tt)*)) => { sp_gview!($($pre)*, $t, $($post)*) };
    (@go $t:ty, sp_grad, ($($pre:tt)*), ($($post:tt)*)) => { sp_grad!($($pre)*, $t, $($post)*) };
}

macro_rules! impl_space {
    ($ty:ty, $a:ident, $n:tt, $p:ty, $s:ty, $real:tt) => {
        impl AnySpace for $ty {
            fn shapes(&self) -> [Vec<usize>; 3] {
                [
                    self.shape_physical().to_vec(),
                    self.shape_spectral().to_vec(),
                    self.shape_spectral_ortho().to_vec(),
                ]
            }
            fn fresh(&self) -> [Arr; 2] {
                [from_nd(&self.ndarray_physical()), from_nd(&self.ndarray_spectral())]
            }
            fn coords(&self) -> Vec<Vec<f64>> {
                BaseSpaceElements::coords(self)
                    .iter()
                    .map(|x| x.iter().map(|v| *v as f64).collect())
                    .collect()
            }
            fn coords_axis(&self, a: usize) -> Vec<f64> {
                BaseSpaceElements::coords_axis(self, a).iter().map(|v| *v as f64).collect()
            }
            fn kind_dbg(&self, a: usize) -> String {
                format!("{:?}", self.base_kind(a))
            }
            fn transform_dbg(&self, a: usize) -> &'static str {
                tk(self.transform_kind(a))
            }
            fn mat(&self, a: usize, m: Mat) -> Matrix {
                match m {
                    Mat::Stencil => Matrix::of(self.stencil(a)),
                    Mat::StencilInv => Matrix::of(self.stencil_inv(a)),
                    Mat::Lap => Matrix::of(self.laplacian(a)),
                    Mat::LapPinv => Matrix::of(self.laplacian_pinv(a).0),
                    Mat::LapPeye => Matrix::of(self.laplacian_pinv(a).1),
                    _ => unreachable!(),
                }
            }
            fn op(&self, op: Op, cplx: bool, mode: Mode, arr: &Arr) -> Arr {
                let sh = AnySpace::shapes(self);
                match op {
                    Op::Forward => sp_modal!(self, mode, arr, sh[1], $p, $s, $n, forward, forward_inplace, forward_par, forward_inplace_par),
                    Op::Backward => sp_modal!(self, mode, arr, sh[0], $s, $p, $n, backward, backward_inplace, backward_par, backward_inplace_par),
                    Op::ToOrtho => with_t!($real, cplx, $a, sp_modal!(self, mode, arr, sh[2]), ($n, to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par)),
                    Op::FromOrtho => with_t!($real, cplx, $a, sp_modal!(self, mode, arr, sh[1]), ($n, from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par)),
                    _ => unreachable!(),
                }
            }
            fn op_into(&self, op: Op, cplx: bool, par: bool, arr: &Arr, out: &Arr) -> Arr {
                match op {
                    Op::Forward => sp_into!(self, par, arr, out, $p, $s, $n, forward_inplace, forward_inplace_par),
                    Op::Backward => sp_into!(self, par, arr, out, $s, $p, $n, backward_inplace, backward_inplace_par),
                    Op::ToOrtho => with_t!($real, cplx, $a, sp_into!(self, par, arr, out), ($n, to_ortho_inplace, to_ortho_inplace_par)),
                    Op::FromOrtho => with_t!($real, cplx, $a, sp_into!(self, par, arr, out), ($n, from_ortho_inplace, from_ortho_inplace_par)),
                    _ => unreachable!(),
                }
            }
            fn op_view(&self, op: Op, cplx: bool, alloc: bool, par: bool, arr: &Arr, out: &Arr, lay: (Layout, Layout)) -> Arr {
                match op {
                    Op::Forward => sp_view!(self, alloc, par, arr, out, lay, $p, $s, $n, forward, forward_par, forward_inplace, forward_inplace_par),
                    Op::Backward => sp_view!(self, alloc, par, arr, out, lay, $s, $p, $n, backward, backward_par, backward_inplace, backward_inplace_par),
                    Op::ToOrtho => with_t!($real, cplx, $a, sp_view!(self, alloc, par, arr, out, lay), ($n, to_ortho, to_ortho_par, to_ortho_inplace, to_ortho_inplace_par)),
                    Op::FromOrtho => with_t!($real, cplx, $a, sp_view!(self, alloc, par, arr, out, lay), ($n, from_ortho, from_ortho_par, from_ortho_inplace, from_ortho_inplace_par)),
                    _ => unreachable!(),
                }
            }
            fn gradient_view(&self, arr: &Arr, deriv: &[u8], par: bool, cplx: bool, lay: Layout) -> Arr {
                with_t!($real, cplx, $a, sp_gview!(self, arr, deriv, par, lay), ($a, $n))
            }
            fn gradient(&self, arr: &Arr, deriv: &[u8], scale: Option<&[f64]>, par: bool, cplx: bool) -> Arr {
                with_t!($real, cplx, $a, sp_grad!(self, arr, deriv, scale, par), ($a, $n))
            }
            fn clone_box(&self) -> Box<dyn AnySpace> {
                Box::new(self.clone())
            }
        }
    };
}

macro_rules! all_spaces {
    ($a:ident) => {
        impl_space!(Space1<BaseR2r<$a>>, $a, 1, $a, $a, true);
        impl_space!(Space1<BaseR2c<$a>>, $a, 1, $a, Complex<$a>, false);
        impl_space!(Space1<BaseC2c<$a>>, $a, 1, Complex<$a>, Complex<$a>, false);
        impl_space!(Space2<BaseR2r<$a>, BaseR2r<$a>>, $a, 2, $a, $a, true);
        impl_space!(Space2<BaseR2c<$a>, BaseR2r<$a>>, $a, 2, $a, Complex<$a>, false);
        impl_space!(Space2<BaseC2c<$a>, BaseR2c<$a>>, $a, 2, $a, Complex<$a>, false);
        impl_space!(Space2<BaseC2c<$a>, BaseC2c<$a>>, $a, 2, Complex<$a>, Complex<$a>, false);
        impl_space!(Space3<BaseR2r<$a>, BaseR2r<$a>, BaseR2r<$a>>, $a, 3, $a, $a, true);
        impl_space!(Space3<BaseR2c<$a>, BaseR2r<$a>, BaseR2r<$a>>, $a, 3, $a, Complex<$a>, false);
        impl_space!(Space3<BaseC2c<$a>, BaseR2c<$a>, BaseR2r<$a>>, $a, 3, $a, Complex<$a>, false);
        impl_space!(Space3<BaseC2c<$a>, BaseC2c<$a>, BaseR2c<$a>>, $a, 3, $a, Complex<$a>, false);
        impl_space!(Space3<BaseC2c<$a>, BaseC2c<$a>, BaseC2c<$a>>, $a, 3, Complex<$a>, Complex<$a>, false);
    };
}
all_spaces!(f64);
all_spaces!(f32);

/// bases of a space, axis by axis
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct SpaceSpec {
    pub axes: Vec<(Kind, usize)>,
    pub prec: Prec,
}

impl SpaceSpec {
    pub fn phys_complex(&self) -> bool {
        self.axes.iter().all(|(k, _)| *k == Kind::C2c)
    }
    pub fn spec_complex(&self) -> bool {
        self.axes.iter().any(|(k, _)| k.is_fourier())
    }
    pub fn bases(&self) -> Vec<Box<dyn AnyBase>> {
        self.axes.iter().map(|(k, n)| make(*k, *n, self.prec)).collect()
    }
    pub fn shape(&self, op: Op, out: bool) -> Vec<usize> {
        self.axes
            .iter()
            .map(|(k, n)| {
                let l = op.lens(*k, *n);
                if out {
                    l.1
                } else {
                    l.0
                }
            })
            .collect()
    }
    pub fn in_complex(&self, op: Op, cplx: bool) -> bool {
        match op {
            Op::Forward => self.phys_complex(),
            Op::Backward => self.spec_complex(),
            _ => self.spec_complex() || cplx,
        }
    }
    pub fn build(&self) -> Box<dyn AnySpace> {
        match self.prec {
            Prec::F64 => build::<f64>(self),
            Prec::F32 => build::<f32>(self),
        }
    }
}

trait Build: FloatNum {
    fn s1(s: &SpaceSpec) -> Box<dyn AnySpace>;
}
fn build<A: Build>(s: &SpaceSpec) -> Box<dyn AnySpace> {
    A::s1(s)
}
macro_rules! impl_build {
    ($a:ident) => {
        impl Build for $a {
            fn s1(s: &SpaceSpec) -> Box<dyn AnySpace> {
                let rr = |i: usize| r2r::<$a>(s.axes[i].0, s.axes[i].1);
                let rc = |i: usize| fourier_r2c::<$a>(s.axes[i].1);
                let cc = |i: usize| fourier_c2c::<$a>(s.axes[i].1);
                let t: Vec<&str> = s.axes.iter().map(|(k, _)| k.transform_name()).collect();
                match t.as_slice() {
                    ["R2r"] => Box::new(Space1::new(&rr(0))),
                    ["R2c"] => Box::new(Space1::new(&rc(0))),
                    ["C2c"] => Box::new(Space1::new(&cc(0))),
                    ["R2r", "R2r"] => Box::new(Space2::new(&rr(0), &rr(1))),
                    ["R2c", "R2r"] => Box::new(Space2::new(&rc(0), &rr(1))),
                    ["C2c", "R2c"] => Box::new(Space2::new(&cc(0), &rc(1))),
                    ["C2c", "C2c"] => Box::new(Space2::new(&cc(0), &cc(1))),
                    ["R2r", "R2r", "R2r"] => Box::new(Space3::new(&rr(0), &rr(1), &rr(2))),
                    ["R2c", "R2r", "R2r"] => Box::new(Space3::new(&rc(0), &rr(1), &rr(2))),
                    ["C2c", "R2c", "R2r"] => Box::new(Space3::new(&cc(0), &rc(1), &rr(2))),
                    ["C2c", "C2c", "R2c"] => Box::new(Space3::new(&cc(0), &cc(1), &rc(2))),
                    ["C2c", "C2c", "C2c"] => Box::new(Space3::new(&cc(0), &cc(1), &cc(2))),
                    _ => unreachable!(),
                }
            }
        }
    };
}
impl_build!(f64);
impl_build!(f32);
