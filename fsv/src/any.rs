//! Uniform, dynamically typed access to every base of the library: values
//! travel as complex f64 and are converted to the scalar type the call needs
//! (exact both ways, so bitwise comparisons survive).
use funspace::enums::TransformKind;
use funspace::traits::*;
use funspace::*;
use ndarray::{Array, Array2, ArrayD, ArrayViewD, ArrayViewMutD, Axis, Dimension, Ix1, Ix2, Ix3, Ix4, IxDyn, Slice};
use num_complex::Complex;
use serde::{Deserialize, Serialize};

pub type C64 = Complex<f64>;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Cheb,
    Dir,
    Neu,
    DirNeu,
    BihA,
    BihB,
    R2c,
    C2c,
}
pub const ALL_KINDS: [Kind; 8] = [
    Kind::Cheb,
    Kind::Dir,
    Kind::Neu,
    Kind::DirNeu,
    Kind::BihA,
    Kind::BihB,
    Kind::R2c,
    Kind::C2c,
];
pub const COMPOSITE: [Kind; 5] = [Kind::Dir, Kind::Neu, Kind::DirNeu, Kind::BihA, Kind::BihB];
pub const R2R: [Kind; 6] = [
    Kind::Cheb,
    Kind::Dir,
    Kind::Neu,
    Kind::DirNeu,
    Kind::BihA,
    Kind::BihB,
];

impl Kind {
    pub fn is_fourier(self) -> bool {
        matches!(self, Kind::R2c | Kind::C2c)
    }
    pub fn is_composite(self) -> bool {
        COMPOSITE.contains(&self)
    }
    pub fn is_r2r(self) -> bool {
        !self.is_fourier()
    }
    /// number of boundary conditions built into the base
    pub fn nbc(self) -> usize {
        match self {
            Kind::Cheb | Kind::R2c | Kind::C2c => 0,
            Kind::Dir | Kind::Neu | Kind::DirNeu => 2,
            Kind::BihA | Kind::BihB => 4,
        }
    }
    /// smallest size on which every operation of the base is supported
    pub fn min_n(self) -> usize {
        match self {
            Kind::Cheb => 2,
            Kind::Dir | Kind::Neu => 5,
            Kind::DirNeu => 6,
            Kind::BihA | Kind::BihB => 10,
            Kind::R2c | Kind::C2c => 1,
        }
    }
    pub fn len_spec(self, n: usize) -> usize {
        match self {
            Kind::Cheb | Kind::C2c => n,
            Kind::R2c => n / 2 + 1,
            _ => n - self.nbc(),
        }
    }
    pub fn len_orth(self, n: usize) -> usize {
        match self {
            Kind::R2c => n / 2 + 1,
            _ => n,
        }
    }
    pub fn base_kind_name(self) -> &'static str {
        match self {
            Kind::Cheb => "Chebyshev",
            Kind::Dir => "ChebDirichlet",
            Kind::Neu => "ChebNeumann",
            Kind::DirNeu => "ChebDirichletNeumann",
            Kind::BihA => "ChebBiHarmonicA",
            Kind::BihB => "ChebBiHarmonicB",
            Kind::R2c => "FourierR2c",
            Kind::C2c => "FourierC2c",
        }
    }
    pub fn transform_name(self) -> &'static str {
        match self {
            Kind::R2c => "R2c",
            Kind::C2c => "C2c",
            _ => "R2r",
        }
    }
    /// values in physical space are complex
    pub fn phys_complex(self) -> bool {
        self == Kind::C2c
    }
    pub fn spec_complex(self) -> bool {
        self.is_fourier()
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Prec {
    F32,
    F64,
}
impl Prec {
    pub fn eps(self) -> f64 {
        match self {
            Prec::F32 => f32::EPSILON as f64,
            Prec::F64 => f64::EPSILON,
        }
    }
    /// round to the precision of the base under test
    pub fn round(self, x: f64) -> f64 {
        match self {
            Prec::F32 => x as f32 as f64,
            Prec::F64 => x,
        }
    }
    pub fn roundc(self, x: C64) -> C64 {
        C64::new(self.round(x.re), self.round(x.im))
    }
}

/// scalar conversion
pub trait Sc: Copy + Clone + Send + Sync + 'static {
    fn from_c(c: C64) -> Self;
    fn to_c(self) -> C64;
}
impl Sc for f64 {
    fn from_c(c: C64) -> f64 {
        c.re
    }
    fn to_c(self) -> C64 {
        C64::new(self, 0.)
    }
}
impl Sc for f32 {
    fn from_c(c: C64) -> f32 {
        c.re as f32
    }
    fn to_c(self) -> C64 {
        C64::new(self as f64, 0.)
    }
}
impl Sc for Complex<f64> {
    fn from_c(c: C64) -> Self {
        c
    }
    fn to_c(self) -> C64 {
        self
    }
}
impl Sc for Complex<f32> {
    fn from_c(c: C64) -> Self {
        Complex::new(c.re as f32, c.im as f32)
    }
    fn to_c(self) -> C64 {
        C64::new(self.re as f64, self.im as f64)
    }
}

/// Row-major dense array of complex f64
#[derive(Clone, Debug, PartialEq)]
pub struct Arr {
    pub shape: Vec<usize>,
    pub data: Vec<C64>,
}

impl Arr {
    pub fn new(shape: &[usize], data: Vec<C64>) -> Arr {
        assert_eq!(shape.iter().product::<usize>(), data.len());
        Arr {
            shape: shape.to_vec(),
            data,
        }
    }
    pub fn filled(shape: &[usize], v: C64) -> Arr {
        Arr::new(shape, vec![v; shape.iter().product()])
    }
    pub fn vec(data: Vec<C64>) -> Arr {
        Arr {
            shape: vec![data.len()],
            data,
        }
    }
    /// strides of the lanes along `axis`: (outer count, len, inner count)
    pub fn split(&self, axis: usize) -> (usize, usize, usize) {
        (
            self.shape[..axis].iter().product(),
            self.shape[axis],
            self.shape[axis + 1..].iter().product(),
        )
    }
    pub fn max_abs(&self) -> f64 {
        self.data.iter().map(|x| x.norm()).fold(0., f64::max)
    }
    /// apply a 1-D map along `axis`
    pub fn map_axis(&self, axis: usize, out_len: usize, f: impl Fn(&[C64]) -> Vec<C64>) -> Arr {
        let (o, l, i) = self.split(axis);
        let mut shape = self.shape.clone();
        shape[axis] = out_len;
        let mut out = Arr::filled(&shape, C64::new(0., 0.));
        let mut lane = vec![C64::new(0., 0.); l];
        for a in 0..o {
            for b in 0..i {
                for k in 0..l {
                    lane[k] = self.data[(a * l + k) * i + b];
                }
                let r = f(&lane);
                assert_eq!(r.len(), out_len);
                for k in 0..out_len {
                    out.data[(a * out_len + k) * i + b] = r[k];
                }
            }
        }
        out
    }
    /// the first slice along the axis everywhere
    pub fn repeat_axis(&self, axis: usize) -> Arr {
        let l = self.shape[axis];
        self.map_axis(axis, l, |lane| vec![lane.first().copied().unwrap_or_default(); l])
    }
    pub fn fill_lane(&mut self, axis: usize, lane: usize, v: C64) {
        let (_, l, i) = self.split(axis);
        let (a, b) = (lane / i, lane % i);
        for k in 0..l {
            self.data[(a * l + k) * i + b] = v;
        }
    }
    pub fn bits_eq(&self, o: &Arr) -> bool {
        self.shape == o.shape
            && self.data.iter().zip(&o.data).all(|(a, b)| {
                a.re.to_bits() == b.re.to_bits() && a.im.to_bits() == b.im.to_bits()
            })
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Op {
    Forward,
    Backward,
    ToOrtho,
    FromOrtho,
    Gradient(u8),
}
/// differentiation order meant by a `Gradient`: as it is up to 199, above
/// that 250 to 305 (orders that do not fit a byte)
pub fn order(k: u8) -> usize {
    match k {
        0..200 => k as usize,
        _ => k as usize + 50,
    }
}
impl Op {
    pub fn name(self) -> &'static str {
        match self {
            Op::Forward => "forward",
            Op::Backward => "backward",
            Op::ToOrtho => "to_ortho",
            Op::FromOrtho => "from_ortho",
            Op::Gradient(_) => "gradient",
        }
    }
    /// (input length, output length) for a base
    pub fn lens(self, k: Kind, n: usize) -> (usize, usize) {
        let (p, s, o) = (n, k.len_spec(n), k.len_orth(n));
        match self {
            Op::Forward => (p, s),
            Op::Backward => (s, p),
            Op::ToOrtho | Op::Gradient(_) => (s, o),
            Op::FromOrtho => (o, s),
        }
    }
    pub fn in_complex(self, k: Kind, cplx: bool) -> bool {
        match self {
            Op::Forward => k.phys_complex(),
            Op::Backward => k.spec_complex(),
            _ => k.is_fourier() || cplx,
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Mode {
    Alloc,
    Inplace,
    AllocPar,
    InplacePar,
    /// slice-level call; one-dimensional input only
    Slice,
}
pub const MODES: [Mode; 4] = [Mode::Alloc, Mode::Inplace, Mode::AllocPar, Mode::InplacePar];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Mat {
    Diff(u8),
    DiffPinv(u8),
    DiffPeye(u8),
    Stencil,
    StencilInv,
    Lap,
    LapPinv,
    LapPeye,
}

pub struct Matrix {
    pub r: usize,
    pub c: usize,
    pub a: Vec<C64>,
}
impl Matrix {
    pub fn at(&self, i: usize, j: usize) -> C64 {
        self.a[i * self.c + j]
    }
    pub fn of<T: Sc>(m: Array2<T>) -> Matrix {
        Matrix {
            r: m.nrows(),
            c: m.ncols(),
            a: m.iter().map(|x| x.to_c()).collect(),
        }
    }
    pub fn mul(&self, o: &Matrix) -> Matrix {
        assert_eq!(self.c, o.r);
        let mut a = vec![C64::new(0., 0.); self.r * o.c];
        for i in 0..self.r {
            for k in 0..self.c {
                let x = self.at(i, k);
                if x != C64::new(0., 0.) {
                    for j in 0..o.c {
                        a[i * o.c + j] += x * o.at(k, j);
                    }
                }
            }
        }
        Matrix {
            r: self.r,
            c: o.c,
            a,
        }
    }
    pub fn mv(&self, v: &[C64]) -> Vec<C64> {
        assert_eq!(self.c, v.len());
        (0..self.r)
            .map(|i| (0..self.c).map(|j| self.at(i, j) * v[j]).sum())
            .collect()
    }
}

pub fn to_nd<T: Sc, D: Dimension>(a: &Arr) -> Array<T, D> {
    ArrayD::from_shape_vec(
        IxDyn(&a.shape),
        a.data.iter().map(|c| T::from_c(*c)).collect(),
    )
    .unwrap()
    .into_dimensionality::<D>()
    .unwrap()
}
pub fn from_nd<T: Sc, D: Dimension>(x: &Array<T, D>) -> Arr {
    Arr {
        shape: x.shape().to_vec(),
        data: x.iter().map(|v| v.to_c()).collect(),
    }
}

pub const GARBAGE: C64 = C64 {
    re: 7.25e3,
    im: -3.5e2,
};

/// what an output holds before a call: a finite value or NaN, by the input
pub fn junk(a: &Arr) -> C64 {
    let h = a.data.iter().fold(a.data.len() as u64, |h, v| {
        fsv_core::data::mix(h ^ v.re.to_bits() ^ v.im.to_bits().rotate_left(7))
    });
    if h & 3 == 0 {
        C64::new(f64::NAN, f64::NAN)
    } else {
        GARBAGE
    }
}

pub trait AnyBase: Send + Sync {
    fn lens(&self) -> [usize; 3];
    fn coords(&self) -> Vec<f64>;
    fn kind_dbg(&self) -> String;
    fn transform_dbg(&self) -> &'static str;
    fn mat(&self, m: Mat) -> Matrix;
    /// `dynd`: use dynamic dimensionality
    fn op(&self, op: Op, cplx: bool, mode: Mode, dynd: bool, arr: &Arr, axis: usize) -> Arr;
    /// in-place array call with a caller-supplied output
    fn op_into(&self, op: Op, cplx: bool, par: bool, arr: &Arr, out: &Arr, axis: usize) -> Arr;
    /// in-place array call on operands in the given memory layouts
    fn op_view(&self, op: Op, cplx: bool, par: bool, arr: &Arr, out: &Arr, axis: usize, lay: (Layout, Layout)) -> Arr;
    /// raw slice call, output buffer supplied by the caller
    fn slice(&self, op: Op, cplx: bool, input: &[C64], out: &[C64]) -> Vec<C64>;
    fn clone_box(&self) -> Box<dyn AnyBase>;
}

/// memory layout of an operand; every one shows the same logical array
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Layout {
    Standard,
    /// column-major
    Fortran,
    /// negative stride along the axis
    Reversed(u8),
    /// every second element of a larger buffer along the axis
    Strided(u8),
    /// a contiguous window of a larger buffer along the axis
    Window(u8),
    /// memory order with the axis moved to the front
    Front(u8),
    /// stride zero along the axis: one slice shown many times (inputs that
    /// repeat along the axis only)
    Same(u8),
}

pub struct Store<T> {
    pub own: ArrayD<T>,
    pub lay: Layout,
    pub shape: Vec<usize>,
}
impl<T: Sc> Store<T> {
    pub fn new(a: &Arr, lay: Layout) -> Store<T> {
        let mut sh = a.shape.clone();
        match lay {
            Layout::Fortran => sh.reverse(),
            Layout::Strided(x) => sh[x as usize] *= 2,
            Layout::Window(x) => sh[x as usize] += 3,
            Layout::Front(x) => sh[..=x as usize].rotate_right(1),
            Layout::Same(x) => sh[x as usize] = sh[x as usize].min(1),
            _ => {}
        }
        let own = ArrayD::<T>::from_elem(IxDyn(&sh), T::from_c(GARBAGE));
        let mut s = Store { own, lay, shape: a.shape.clone() };
        let mut a = to_nd::<T, IxDyn>(a);
        if let Layout::Same(x) = lay {
            a.slice_axis_inplace(Axis(x as usize), Slice::new(0, Some(sh[x as usize] as isize), 1));
        }
        s.view_mut().assign(&a);
        s
    }
    pub fn view(&self) -> ArrayViewD<'_, T> {
        let mut v = self.own.view();
        match self.lay {
            Layout::Standard => {}
            Layout::Fortran => v = v.reversed_axes(),
            Layout::Reversed(x) => v.invert_axis(Axis(x as usize)),
            Layout::Strided(x) => v.slice_axis_inplace(Axis(x as usize), Slice::new(1, None, 2)),
            Layout::Window(x) => v.slice_axis_inplace(Axis(x as usize), Slice::new(1, Some(-2), 1)),
            Layout::Same(_) => v = self.own.broadcast(IxDyn(&self.shape)).unwrap(),
            Layout::Front(x) => {
                // memory axes (x, 0, 1, ..), logical axes (0, 1, .., x, ..)
                let mut p: Vec<usize> = (0..v.ndim()).collect();
                p[..=x as usize].rotate_left(1);
                v = v.permuted_axes(IxDyn(&p));
            }
        }
        v
    }
    pub fn view_mut(&mut self) -> ArrayViewMutD<'_, T> {
        let mut v = self.own.view_mut();
        match self.lay {
            Layout::Standard => {}
            Layout::Fortran => v = v.reversed_axes(),
            Layout::Reversed(x) => v.invert_axis(Axis(x as usize)),
            Layout::Strided(x) => v.slice_axis_inplace(Axis(x as usize), Slice::new(1, None, 2)),
            Layout::Window(x) => v.slice_axis_inplace(Axis(x as usize), Slice::new(1, Some(-2), 1)),
            Layout::Same(_) => {}
            Layout::Front(x) => {
                // memory axes (x, 0, 1, ..), logical axes (0, 1, .., x, ..)
                let mut p: Vec<usize> = (0..v.ndim()).collect();
                p[..=x as usize].rotate_left(1);
                v = v.permuted_axes(IxDyn(&p));
            }
        }
        v
    }
}

fn tk(t: TransformKind) -> &'static str {
    match t {
        TransformKind::R2r => "R2r",
        TransformKind::R2c => "R2c",
        TransformKind::C2c => "C2c",
    }
}

macro_rules! modal {
    ($b:expr, $mode:expr, $arr:expr, $axis:expr, $outlen:expr, $tin:ty, $tout:ty, $d:ty,
     $alloc:ident, $inp:ident, $palloc:ident, $pinp:ident $(, $n:expr)?) => {{
        let x = to_nd::<$tin, $d>($arr);
        let garb = || {
            let mut s = $arr.shape.clone();
            s[$axis] = $outlen;
            to_nd::<$tout, $d>(&Arr::filled(&s, junk($arr)))
        };
        match $mode {
            Mode::Alloc => { let y: Array<$tout, $d> = $b.$alloc(&x $(, $n)?, $axis); from_nd(&y) }
            Mode::Inplace => { let mut y = garb(); $b.$inp(&x, &mut y $(, $n)?, $axis); from_nd(&y) }
            Mode::AllocPar => { let y: Array<$tout, $d> = $b.$palloc(&x $(, $n)?, $axis); from_nd(&y) }
            Mode::InplacePar => { let mut y = garb(); $b.$pinp(&x, &mut y $(, $n)?, $axis); from_nd(&y) }
            Mode::Slice => unreachable!(),
        }
    }};
}

macro_rules! coef_ops {
    ($b:expr, $op:expr, $mode:expr, $arr:expr, $axis:expr, $lens:expr, $t:ty, $d:ty) => {
        match $op {
            Op::ToOrtho => modal!($b, $mode, $arr, $axis, $lens[2], $t, $t, $d, to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par),
            Op::FromOrtho => modal!($b, $mode, $arr, $axis, $lens[1], $t, $t, $d, from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par),
            Op::Gradient(k) => modal!($b, $mode, $arr, $axis, $lens[2], $t, $t, $d, gradient, gradient_inplace, gradient_par, gradient_inplace_par, order(k)),
            _ => unreachable!(),
        }
    };
}

macro_rules! by_dim {
    ($dynd:expr, $nd:expr, $mac:ident, $($args:tt)*) => {
        match ($dynd, $nd) {
            (false, 1) => $mac!(Ix1, $($args)*),
            (false, 2) => $mac!(Ix2, $($args)*),
            (false, 3) => $mac!(Ix3, $($args)*),
            (false, 4) => $mac!(Ix4, $($args)*),
            _ => $mac!(IxDyn, $($args)*),
        }
    };
}

macro_rules! call_coef {
    ($d:ty, $b:expr, $op:expr, $mode:expr, $arr:expr, $axis:expr, $lens:expr, $t:ty) => {
        coef_ops!($b, $op, $mode, $arr, $axis, $lens, $t, $d)
    };
}
macro_rules! call_tr {
    ($d:ty, $b:expr, $op:expr, $mode:expr, $arr:expr, $axis:expr, $lens:expr, $p:ty, $s:ty) => {
        match $op {
            Op::Forward => modal!($b, $mode, $arr, $axis, $lens[1], $p, $s, $d, forward, forward_inplace, forward_par, forward_inplace_par),
            Op::Backward => modal!($b, $mode, $arr, $axis, $lens[0], $s, $p, $d, backward, backward_inplace, backward_par, backward_inplace_par),
            _ => unreachable!(),
        }
    };
}

macro_rules! into_call {
    ($b:expr, $par:expr, $arr:expr, $out:expr, $axis:expr, $tin:ty, $tout:ty, $f:ident, $pf:ident $(, $n:expr)?) => {{
        let x = to_nd::<$tin, IxDyn>($arr);
        let mut y = to_nd::<$tout, IxDyn>($out);
        if $par { $b.$pf(&x, &mut y $(, $n)?, $axis); } else { $b.$f(&x, &mut y $(, $n)?, $axis); }
        from_nd(&y)
    }};
}
macro_rules! view_call {
    ($b:expr, $par:expr, $arr:expr, $out:expr, $axis:expr, $lay:expr, $tin:ty, $tout:ty, $f:ident, $pf:ident $(, $n:expr)?) => {{
        let x = Store::<$tin>::new($arr, $lay.0);
        let mut y = Store::<$tout>::new($out, $lay.1);
        let before = y.own.clone();
        {
            let mut v = y.view_mut();
            if $par { $b.$pf(&x.view(), &mut v $(, $n)?, $axis); } else { $b.$f(&x.view(), &mut v $(, $n)?, $axis); }
        }
        // elements of the buffer outside the view must be untouched
        let got = from_nd(&y.view().to_owned());
        let orig = Store { own: before.clone(), lay: y.lay, shape: y.shape.clone() };
        y.view_mut().assign(&orig.view());
        assert!(y.own.iter().zip(before.iter()).all(|(a, b)| a.to_c() == b.to_c()), "FSV-OUTSIDE-VIEW");
        got
    }};
}
macro_rules! slice_call {
    ($b:expr, $in:expr, $out:expr, $tin:ty, $tout:ty, $f:ident $(, $n:expr)?) => {{
        // exact-length heap buffers, so that overruns leave the allocation
        let x: Vec<$tin> = $in.iter().map(|c| <$tin>::from_c(*c)).collect();
        let mut y: Vec<$tout> = $out.iter().map(|c| <$tout>::from_c(*c)).collect();
        $b.$f(&x, &mut y $(, $n)?);
        y.into_iter().map(|v| v.to_c()).collect()
    }};
}

macro_rules! impl_any {
    ($base:ident, $a:ident, $p:ty, $s:ty, $real_coefs:tt) => {
        impl AnyBase for $base<$a> {
            fn lens(&self) -> [usize; 3] {
                [self.len_phys(), self.len_spec(), self.len_orth()]
            }
            fn coords(&self) -> Vec<f64> {
                BaseElements::coords(self).iter().map(|x| *x as f64).collect()
            }
            fn kind_dbg(&self) -> String {
                format!("{:?}", self.base_kind())
            }
            fn transform_dbg(&self) -> &'static str {
                tk(self.transform_kind())
            }
            fn mat(&self, m: Mat) -> Matrix {
                match m {
                    Mat::Diff(k) => Matrix::of(self.diffmat(k as usize)),
                    Mat::DiffPinv(k) => Matrix::of(self.diffmat_pinv(k as usize).0),
                    Mat::DiffPeye(k) => Matrix::of(self.diffmat_pinv(k as usize).1),
                    Mat::Stencil => Matrix::of(self.stencil()),
                    Mat::StencilInv => Matrix::of(self.stencil_inv()),
                    Mat::Lap => Matrix::of(self.laplacian()),
                    Mat::LapPinv => Matrix::of(self.laplacian_pinv().0),
                    Mat::LapPeye => Matrix::of(self.laplacian_pinv().1),
                }
            }
            fn op(&self, op: Op, cplx: bool, mode: Mode, dynd: bool, arr: &Arr, axis: usize) -> Arr {
                let l = AnyBase::lens(self);
                if mode == Mode::Slice {
                    assert_eq!(arr.shape.len(), 1);
                    let n = match op {
                        Op::Forward | Op::FromOrtho => l[1],
                        Op::Backward => l[0],
                        _ => l[2],
                    };
                    return Arr::vec(self.slice(op, cplx, &arr.data, &vec![junk(arr); n]));
                }
                let nd = arr.shape.len();
                match op {
                    Op::Forward | Op::Backward => {
                        by_dim!(dynd, nd, call_tr, self, op, mode, arr, axis, l, $p, $s)
                    }
                    _ => impl_any!(@coef $real_coefs, self, op, cplx, mode, dynd, nd, arr, axis, l, $a),
                }
            }
            fn op_into(&self, op: Op, cplx: bool, par: bool, arr: &Arr, out: &Arr, axis: usize) -> Arr {
                match op {
                    Op::Forward => into_call!(self, par, arr, out, axis, $p, $s, forward_inplace, forward_inplace_par),
                    Op::Backward => into_call!(self, par, arr, out, axis, $s, $p, backward_inplace, backward_inplace_par),
                    _ => impl_any!(@into $real_coefs, self, op, cplx, par, arr, out, axis, $a),
                }
            }
            fn op_view(&self, op: Op, cplx: bool, par: bool, arr: &Arr, out: &Arr, axis: usize, lay: (Layout, Layout)) -> Arr {
                match op {
                    Op::Forward => view_call!(self, par, arr, out, axis, lay, $p, $s, forward_inplace, forward_inplace_par),
                    Op::Backward => view_call!(self, par, arr, out, axis, lay, $s, $p, backward_inplace, backward_inplace_par),
                    _ => impl_any!(@view $real_coefs, self, op, cplx, par, arr, out, axis, lay, $a),
                }
            }
            fn slice(&self, op: Op, cplx: bool, input: &[C64], out: &[C64]) -> Vec<C64> {
                match op {
                    Op::Forward => slice_call!(self, input, out, $p, $s, forward_slice),
                    Op::Backward => slice_call!(self, input, out, $s, $p, backward_slice),
                    _ => impl_any!(@slice $real_coefs, self, op, cplx, input, out, $a),
                }
            }
            fn clone_box(&self) -> Box<dyn AnyBase> {
                Box::new(self.clone())
            }
        }
    };
    (@coef true, $self:expr, $op:ident, $cplx:ident, $mode:ident, $dynd:ident, $nd:ident, $arr:ident, $axis:ident, $l:ident, $a:ident) => {
        if $cplx {
            by_dim!($dynd, $nd, call_coef, $self, $op, $mode, $arr, $axis, $l, Complex<$a>)
        } else {
            by_dim!($dynd, $nd, call_coef, $self, $op, $mode, $arr, $axis, $l, $a)
        }
    };
    (@coef false, $self:expr, $op:ident, $cplx:ident, $mode:ident, $dynd:ident, $nd:ident, $arr:ident, $axis:ident, $l:ident, $a:ident) => {{
        let _ = $cplx;
        by_dim!($dynd, $nd, call_coef, $self, $op, $mode, $arr, $axis, $l, Complex<$a>)
    }};
    (@into1 $t:ty, $self:expr, $op:ident, $par:ident, $arr:ident, $out:ident, $axis:ident) => {
        match $op {
            Op::ToOrtho => into_call!($self, $par, $arr, $out, $axis, $t, $t, to_ortho_inplace, to_ortho_inplace_par),
            Op::FromOrtho => into_call!($self, $par, $arr, $out, $axis, $t, $t, from_ortho_inplace, from_ortho_inplace_par),
            Op::Gradient(k) => into_call!($self, $par, $arr, $out, $axis, $t, $t, gradient_inplace, gradient_inplace_par, order(k)),
            _ => unreachable!(),
        }
    };
    (@into true, $self:expr, $op:ident, $cplx:ident, $par:ident, $arr:ident, $out:ident, $axis:ident, $a:ident) => {
        if $cplx {
            impl_any!(@into1 Complex<$a>, $self, $op, $par, $arr, $out, $axis)
        } else {
            impl_any!(@into1 $a, $self, $op, $par, $arr, $out, $axis)
        }
    };
    (@into false, $self:expr, $op:ident, $cplx:ident, $par:ident, $arr:ident, $out:ident, $axis:ident, $a:ident) => {{
        let _ = $cplx;
        impl_any!(@into1 Complex<$a>, $self, $op, $par, $arr, $out, $axis)
    }};
    (@view1 $t:ty, $self:expr, $op:ident, $par:ident, $arr:ident, $out:ident, $axis:ident, $lay:ident) => {
        match $op {
            Op::ToOrtho => view_call!($self, $par, $arr, $out, $axis, $lay, $t, $t, to_ortho_inplace, to_ortho_inplace_par),
            Op::FromOrtho => view_call!($self, $par, $arr, $out, $axis, $lay, $t, $t, from_ortho_inplace, from_ortho_inplace_par),
            Op::Gradient(k) => view_call!($self, $par, $arr, $out, $axis, $lay, $t, $t, gradient_inplace, gradient_inplace_par, order(k)),
            _ => unreachable!(),
        }
    };
    (@view true, $self:expr, $op:ident, $cplx:ident, $par:ident, $arr:ident, $out:ident, $axis:ident, $lay:ident, $a:ident) => {
        if $cplx {
            impl_any!(@view1 Complex<$a>, $self, $op, $par, $arr, $out, $axis, $lay)
        } else {
            impl_any!(@view1 $a, $self, $op, $par, $arr, $out, $axis, $lay)
        }
    };
    (@view false, $self:expr, $op:ident, $cplx:ident, $par:ident, $arr:ident, $out:ident, $axis:ident, $lay:ident, $a:ident) => {{
        let _ = $cplx;
        impl_any!(@view1 Complex<$a>, $self, $op, $par, $arr, $out, $axis, $lay)
    }};
    (@slice1 $t:ty, $self:expr, $op:ident, $in:ident, $out:ident) => {
        match $op {
            Op::ToOrtho => slice_call!($self, $in, $out, $t, $t, to_ortho_slice),
            Op::FromOrtho => slice_call!($self, $in, $out, $t, $t, from_ortho_slice),
            Op::Gradient(k) => slice_call!($self, $in, $out, $t, $t, gradient_slice, order(k)),
            _ => unreachable!(),
        }
    };
    (@slice true, $self:expr, $op:ident, $cplx:ident, $in:ident, $out:ident, $a:ident) => {
        if $cplx {
            impl_any!(@slice1 Complex<$a>, $self, $op, $in, $out)
        } else {
            impl_any!(@slice1 $a, $self, $op, $in, $out)
        }
    };
    (@slice false, $self:expr, $op:ident, $cplx:ident, $in:ident, $out:ident, $a:ident) => {{
        let _ = $cplx;
        impl_any!(@slice1 Complex<$a>, $self, $op, $in, $out)
    }};
}

impl_any!(BaseR2r, f64, f64, f64, true);
impl_any!(BaseR2r, f32, f32, f32, true);
impl_any!(BaseR2c, f64, f64, Complex<f64>, false);
impl_any!(BaseR2c, f32, f32, Complex<f32>, false);
impl_any!(BaseC2c, f64, Complex<f64>, Complex<f64>, false);
impl_any!(BaseC2c, f32, Complex<f32>, Complex<f32>, false);

pub fn r2r<A: FloatNum>(k: Kind, n: usize) -> BaseR2r<A> {
    match k {
        Kind::Cheb => chebyshev(n),
        Kind::Dir => cheb_dirichlet(n),
        Kind::Neu => cheb_neumann(n),
        Kind::DirNeu => cheb_dirichlet_neumann(n),
        Kind::BihA => cheb_biharmonic_a(n),
        Kind::BihB => cheb_biharmonic_b(n),
        _ => unreachable!(),
    }
}

pub fn make(k: Kind, n: usize, p: Prec) -> Box<dyn AnyBase> {
    match (k, p) {
        (Kind::R2c, Prec::F64) => Box::new(fourier_r2c::<f64>(n)),
        (Kind::R2c, Prec::F32) => Box::new(fourier_r2c::<f32>(n)),
        (Kind::C2c, Prec::F64) => Box::new(fourier_c2c::<f64>(n)),
        (Kind::C2c, Prec::F32) => Box::new(fourier_c2c::<f32>(n)),
        (_, Prec::F64) => Box::new(r2r::<f64>(k, n)),
        (_, Prec::F32) => Box::new(r2r::<f32>(k, n)),
    }
}
