//! Uniform access to the distributed two-dimensional spaces.
use crate::any::*;
use crate::drive::uni;
use crate::mv::Mv;
use crate::spaces::{AnySpace, SpaceSpec};
use funspace::enums::TransformKind;
use funspace::space_mpi::{BaseSpaceMpi, Space2Mpi};
use funspace::*;
use ndarray::{Array2, ArrayBase, Dim, Ix2};
use num_complex::Complex;

fn tk(t: TransformKind) -> &'static str {
    match t {
        TransformKind::R2r => "R2r",
        TransformKind::R2c => "R2c",
        TransformKind::C2c => "C2c",
    }
}

macro_rules! all_mpi_spaces {
    ($a:ident) => {
        impl_space!(Space2Mpi<'static, BaseR2r<$a>, BaseR2r<$a>>, $a, 2, $a, $a, true);
        impl_space!(Space2Mpi<'static, BaseR2c<$a>, BaseR2r<$a>>, $a, 2, $a, Complex<$a>, false);
        impl_space!(Space2Mpi<'static, BaseC2c<$a>, BaseR2c<$a>>, $a, 2, $a, Complex<$a>, false);
        impl_space!(Space2Mpi<'static, BaseC2c<$a>, BaseC2c<$a>>, $a, 2, Complex<$a>, Complex<$a>, false);
    };
}
all_mpi_spaces!(f64);
all_mpi_spaces!(f32);

/// one pencil of a global array: first index and extent
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pen {
    pub st: [usize; 2],
    pub sz: [usize; 2],
}

pub trait AnyMpi {
    fn serial(&self) -> &dyn AnySpace;
    fn ids(&self) -> [usize; 2];
    /// physical x, physical y, spectral x, spectral y
    fn pen_shapes(&self) -> [[usize; 2]; 4];
    fn fresh_pens(&self) -> [Arr; 4];
    /// x- and y-pencil of this rank for a global shape, and the world's size and rank
    fn pens(&self, shape: [usize; 2]) -> ([Pen; 2], [usize; 4]);
    fn mop(&self, op: Op, inplace: bool, arr: &Arr, out: [usize; 2], lay: (Layout, Layout)) -> Arr;
    fn mgradient(&self, arr: &Arr, deriv: &[u8], scale: Option<&[f64]>) -> Arr;
    /// data movement of physical or spectral fields in a layout of the caller's choice;
    /// `None`: this rank receives nothing
    fn mmove(&self, mv: Mv, spec: bool, arr: &Arr, out: [usize; 2], lay: (Layout, Layout), root: bool) -> Option<Arr>;
    fn mclone(&self) -> Box<dyn AnyMpi>;
}

macro_rules! mv_in {
    ($arr:expr, $lay:expr, $t:ty, |$v:ident| $e:expr) => {{
        let src = Store::<$t>::new($arr, $lay);
        let $v = src.view().into_dimensionality::<Ix2>().unwrap();
        $e
    }};
}
macro_rules! mv_out {
    ($out:expr, $lay:expr, $t:ty, |$w:ident| $e:expr) => {{
        let mut dst = Store::<$t>::new(&Arr::filled(&$out, GARBAGE), $lay);
        let mut $w = dst.view_mut().into_dimensionality::<Ix2>().unwrap();
        $e;
        Some(from_nd(&$w.to_owned()))
    }};
}
macro_rules! movement {
    ($s:expr, $t:ty, $mv:expr, $arr:expr, $out:expr, $lay:expr, $root:expr,
     $xy:ident, $yx:ident, $gx:ident, $gxr:ident, $gy:ident, $gyr:ident,
     $sx:ident, $sxr:ident, $sy:ident, $syr:ident, $ax:ident, $ay:ident) => {
        match ($mv, $root) {
            (Mv::XtoY, _) => mv_in!($arr, $lay.0, $t, |v| mv_out!($out, $lay.1, $t, |w| $s.$xy(&v, &mut w))),
            (Mv::YtoX, _) => mv_in!($arr, $lay.0, $t, |v| mv_out!($out, $lay.1, $t, |w| $s.$yx(&v, &mut w))),
            (Mv::AllX, _) => mv_in!($arr, $lay.0, $t, |v| mv_out!($out, $lay.1, $t, |w| $s.$ax(&v, &mut w))),
            (Mv::AllY, _) => mv_in!($arr, $lay.0, $t, |v| mv_out!($out, $lay.1, $t, |w| $s.$ay(&v, &mut w))),
            (Mv::GatherX, true) => mv_in!($arr, $lay.0, $t, |v| mv_out!($out, $lay.1, $t, |w| $s.$gxr(&v, &mut w))),
            (Mv::GatherY, true) => mv_in!($arr, $lay.0, $t, |v| mv_out!($out, $lay.1, $t, |w| $s.$gyr(&v, &mut w))),
            (Mv::GatherX, false) => mv_in!($arr, $lay.0, $t, |v| { $s.$gx(&v); None }),
            (Mv::GatherY, false) => mv_in!($arr, $lay.0, $t, |v| { $s.$gy(&v); None }),
            (Mv::ScatterX, true) => mv_in!($arr, $lay.0, $t, |v| mv_out!($out, $lay.1, $t, |w| $s.$sxr(&v, &mut w))),
            (Mv::ScatterY, true) => mv_in!($arr, $lay.0, $t, |v| mv_out!($out, $lay.1, $t, |w| $s.$syr(&v, &mut w))),
            (Mv::ScatterX, false) => mv_out!($out, $lay.1, $t, |w| $s.$sx(&mut w)),
            (Mv::ScatterY, false) => mv_out!($out, $lay.1, $t, |w| $s.$sy(&mut w)),
            _ => unreachable!(),
        }
    };
}

macro_rules! impl_mpi {
    ($b0:ident, $b1:ident, $p:ty, $s:ty, $a:ident) => {
        impl AnyMpi for Space2Mpi<'static, $b0<$a>, $b1<$a>> {
            fn serial(&self) -> &dyn AnySpace {
                self
            }
            fn ids(&self) -> [usize; 2] {
                let w = self.get_universe() as *const _ == uni() as *const _;
                assert!(w, "another universe");
                [self.get_nprocs(), self.get_nrank()]
            }
            fn pen_shapes(&self) -> [[usize; 2]; 4] {
                [
                    self.shape_physical_x_pen(),
                    self.shape_physical_y_pen(),
                    self.shape_spectral_x_pen(),
                    self.shape_spectral_y_pen(),
                ]
            }
            fn fresh_pens(&self) -> [Arr; 4] {
                [
                    from_nd(&self.ndarray_physical_x_pen()),
                    from_nd(&self.ndarray_physical_y_pen()),
                    from_nd(&self.ndarray_spectral_x_pen()),
                    from_nd(&self.ndarray_spectral_y_pen()),
                ]
            }
            fn pens(&self, shape: [usize; 2]) -> ([Pen; 2], [usize; 4]) {
                let d = self.get_decomp_from_global_shape(&shape);
                let p = |d: &funspace::space_mpi::decomp2d::Distribution<2>| Pen { st: d.st, sz: d.sz };
                (
                    [p(&d.x_pencil), p(&d.y_pencil)],
                    [d.nprocs as usize, d.nrank as usize, d.n_global[0], d.n_global[1]],
                )
            }
            fn mop(&self, op: Op, inplace: bool, arr: &Arr, out: [usize; 2], lay: (Layout, Layout)) -> Arr {
                macro_rules! go {
                    ($tin:ty, $tout:ty, $al:ident, $inp:ident) => {{
                        let x = Store::<$tin>::new(arr, lay.0);
                        let x = x.view().into_dimensionality::<Ix2>().unwrap();
                        if inplace {
                            let mut y = Store::<$tout>::new(&Arr::filled(&out, junk(arr)), lay.1);
                            let mut y = y.view_mut().into_dimensionality::<Ix2>().unwrap();
                            self.$inp(&x, &mut y);
                            from_nd(&y.to_owned())
                        } else {
                            let y: Array2<$tout> = self.$al(&x);
                            from_nd(&y)
                        }
                    }};
                }
                match op {
                    Op::Forward => go!($p, $s, forward_mpi, forward_inplace_mpi),
                    Op::Backward => go!($s, $p, backward_mpi, backward_inplace_mpi),
                    Op::ToOrtho => go!($s, $s, to_ortho_mpi, to_ortho_inplace_mpi),
                    Op::FromOrtho => go!($s, $s, from_ortho_mpi, from_ortho_inplace_mpi),
                    _ => unreachable!(),
                }
            }
            fn mgradient(&self, arr: &Arr, deriv: &[u8], scale: Option<&[f64]>) -> Arr {
                let x = to_nd::<$s, Ix2>(arr);
                from_nd(&self.gradient_mpi(
                    &x,
                    [deriv[0] as usize, deriv[1] as usize],
                    scale.map(|s| [s[0] as $a, s[1] as $a]),
                ))
            }
            fn mmove(&self, mv: Mv, spec: bool, arr: &Arr, out: [usize; 2], lay: (Layout, Layout), root: bool) -> Option<Arr> {
                if spec {
                    movement!(
                        self, $s, mv, arr, out, lay, root, transpose_x_to_y_spec, transpose_y_to_x_spec,
                        gather_from_x_pencil_spec, gather_from_x_pencil_spec_root,
                        gather_from_y_pencil_spec, gather_from_y_pencil_spec_root,
                        scatter_to_x_pencil_spec, scatter_to_x_pencil_spec_root,
                        scatter_to_y_pencil_spec, scatter_to_y_pencil_spec_root,
                        all_gather_from_x_pencil_spec, all_gather_from_y_pencil_spec
                    )
                } else {
                    movement!(
                        self, $p, mv, arr, out, lay, root, transpose_x_to_y_phys, transpose_y_to_x_phys,
                        gather_from_x_pencil_phys, gather_from_x_pencil_phys_root,
                        gather_from_y_pencil_phys, gather_from_y_pencil_phys_root,
                        scatter_to_x_pencil_phys, scatter_to_x_pencil_phys_root,
                        scatter_to_y_pencil_phys, scatter_to_y_pencil_phys_root,
                        all_gather_from_x_pencil_phys, all_gather_from_y_pencil_phys
                    )
                }
            }
            fn mclone(&self) -> Box<dyn AnyMpi> {
                Box::new(self.clone())
            }
        }
    };
}
macro_rules! all_mpi {
    ($a:ident) => {
        impl_mpi!(BaseR2r, BaseR2r, $a, $a, $a);
        impl_mpi!(BaseR2c, BaseR2r, $a, Complex<$a>, $a);
        impl_mpi!(BaseC2c, BaseR2c, $a, Complex<$a>, $a);
        impl_mpi!(BaseC2c, BaseC2c, Complex<$a>, Complex<$a>, $a);
    };
}
all_mpi!(f64);
all_mpi!(f32);

macro_rules! build_fn {
    ($name:ident, $a:ident) => {
        fn $name(s: &SpaceSpec) -> Box<dyn AnyMpi> {
            let rr = |i: usize| r2r::<$a>(s.axes[i].0, s.axes[i].1);
            let rc = |i: usize| fourier_r2c::<$a>(s.axes[i].1);
            let cc = |i: usize| fourier_c2c::<$a>(s.axes[i].1);
            let t: Vec<&str> = s.axes.iter().map(|(k, _)| k.transform_name()).collect();
            match t.as_slice() {
                ["R2r", "R2r"] => Box::new(Space2Mpi::new(&rr(0), &rr(1), uni())),
                ["R2c", "R2r"] => Box::new(Space2Mpi::new(&rc(0), &rr(1), uni())),
                ["C2c", "R2c"] => Box::new(Space2Mpi::new(&cc(0), &rc(1), uni())),
                ["C2c", "C2c"] => Box::new(Space2Mpi::new(&cc(0), &cc(1), uni())),
                _ => unreachable!(),
            }
        }
    };
}
build_fn!(build64, f64);
build_fn!(build32, f32);
pub fn build(s: &SpaceSpec) -> Box<dyn AnyMpi> {
    match s.prec {
        Prec::F64 => build64(s),
        Prec::F32 => build32(s),
    }
}
