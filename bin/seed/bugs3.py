"""Planted bugs: deadlocks, size limits, rare orders and shapes."""
BUGS = []
def bug(id, property, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

ORTHO = "src/chebyshev/ortho.rs"
COMPO = "src/chebyshev/compo.rs"
HELP = "src/chebyshev/stencils/helpers.rs"
STEN = "src/chebyshev/stencils.rs"
R2C = "src/fourier/r2c.rs"
C2C = "src/fourier/c2c.rs"
TR = "src/traits.rs"
UT = "src/utils.rs"
MAC = "src/internal_macros.rs"
TDMA = "src/chebyshev/linalg/tdma.rs"
S1, S2, S3 = "src/space/space1.rs", "src/space/space2.rs", "src/space/space3.rs"
FUN = "src/space_mpi/decomp2d/functions.rs"
DIST = "src/space_mpi/decomp2d/distribute.rs"
DEC = "src/space_mpi/decomp2d/mod.rs"
COMMON = """
fn near(a: &Array2<f64>, b: &Array2<f64>) -> bool {
    a.shape() == b.shape() && a.iter().zip(b.iter()).all(|(x, y)| (x - y).abs() < 1e-9)
}
"""

bug("c12-par-gate", "C12",
    [(MAC, """                // Data is *not* contiguous in memory.
                let scratch_len = outdata.shape()[axis];""",
      """                // Data is *not* contiguous in memory.
                // One strided transform at a time, to limit scratch memory
                static GATE: std::sync::Mutex<()> = std::sync::Mutex::new(());
                let _gate = GATE.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
                let scratch_len = outdata.shape()[axis];""")],
    """
fn main() {
    // rayon is reached through ndarray
    let b = chebyshev::<f64>(33);
    let x = Array2::from_shape_fn((33, 512), |(i, j)| val(i * 512 + j));
    let e = b.forward(&x, 0);
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for _ in 0..100 {
            let mut a = Array1::from_elem(64, 0.);
            ndarray::Zip::from(&mut a).par_for_each(|r| {
                let y = b.forward_par(&x, 0);
                *r = (&y - &e).fold(0., |s: f64, v| s.max(v.abs()));
            });
            check(a.iter().all(|v| *v < 1e-12), "parallel result differs");
        }
        tx.send(()).unwrap();
    });
    check(rx.recv_timeout(std::time::Duration::from_secs(60)).is_ok(), "parallel calls from a parallel loop never return");
}
""", "parallel transforms along a strided axis called from inside a rayon parallel loop",
    "a worker that waits for its lanes steals another call and waits for the lock it holds itself")

bug("c12-clone-kind", "C12",
    [(COMPO, "#[derive(Clone)]\npub struct ChebyshevComposite", "pub struct ChebyshevComposite"),
     (COMPO, "impl<A: FloatNum> BaseSize for ChebyshevComposite<A> {",
      """impl<A: FloatNum> Clone for ChebyshevComposite<A> {
    /// The factorisations are cheap to rebuild
    fn clone(&self) -> Self {
        match self.stencil {
            ChebyshevStencils::Dirichlet(_) => Self::dirichlet(self.n),
            ChebyshevStencils::Neumann(_) => Self::neumann(self.n),
            ChebyshevStencils::DirichletNeumann(_) => Self::dirichlet_neumann(self.n),
            ChebyshevStencils::BiHarmonicA(_) | ChebyshevStencils::BiHarmonicB(_) => {
                Self::biharmonic_a(self.n)
            }
        }
    }
}

impl<A: FloatNum> BaseSize for ChebyshevComposite<A> {""")],
    """
fn main() {
    let b = cheb_biharmonic_b::<f64>(12);
    let c = Array1::from_shape_fn(8, val);
    let (x, y) = (b.to_ortho(&c, 0), b.clone().to_ortho(&c, 0));
    for (p, q) in x.iter().zip(y.iter()) { close(*q, *p, 1e-13, "clone behaves differently"); }
}
""", "a clone of the second biharmonic base", "the clone carries the boundary conditions of the first biharmonic base")

bug("c07-order-shortcut", "C07",
    [(ORTHO, """        // Differentiate
        let two = T::one() + T::one();""",
      """        // Derivatives beyond the polynomial degree vanish
        if n_times + 1 >= self.m && n_times > 2 {
            outdata.fill(T::zero());
            return;
        }
        // Differentiate
        let two = T::one() + T::one();""")],
    """
fn main() {
    let b = chebyshev::<f64>(5);
    let mut c = Array1::zeros(5);
    c[4] = 1.; // T_4 = 8 x^4 - ..., fourth derivative 192
    let d = b.gradient(&c, 4, 0);
    close(d[0], 192., 1e-9, "fourth derivative of T_4");
}
""", "derivative order equal to the polynomial degree, at least three", "the last non-vanishing derivative is returned as zero")

bug("c07-c2c-i16", "C07",
    [(C2C, "            for (k, y) in outdata.iter_mut().rev().take(n / 2).enumerate() {\n                let ki: Complex<A> = Complex::<A>::new(A::zero(), -A::from_usize(k + 1).unwrap());",
      "            for (k, y) in outdata.iter_mut().rev().take(n / 2).enumerate() {\n                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_i16(((k + 1) as i16).wrapping_neg()).unwrap());")],
    """
fn main() {
    let n = 65600;
    let b = fourier_c2c::<f64>(n);
    let mut c = Array1::<C>::zeros(n);
    c[n - 32780] = C::new(1., 0.);
    let d = b.gradient(&c, 1, 0);
    close(d[n - 32780].im, -32780., 1e-6, "derivative of mode -32780");
}
""", "complex Fourier base of more than 65536 points", "negative wavenumbers below -32768 wrap around")

bug("c04-neumann-i32", "C04",
    [(STEN, "            let k_ = A::from_f64(k.pow(2) as f64).unwrap();\n            let k2_ = A::from_f64((k + 2).pow(2) as f64).unwrap();",
      "            let k_ = A::from_f64(f64::from(k.pow(2) as i32)).unwrap();\n            let k2_ = A::from_f64(f64::from((k + 2).pow(2) as i32)).unwrap();")],
    """
fn main() {
    let n = 47000;
    let b = cheb_neumann::<f64>(n);
    let mut c = Array1::zeros(n - 2);
    c[46340] = 1.;
    let d = b.gradient(&c, 1, 0);
    let s: f64 = d.iter().sum();
    let a: f64 = d.iter().map(|x| x.abs()).sum();
    close(s, 0., 1e-6 * a, "slope at x=1");
}
""", "Neumann base with more than 46340 points", "squared wavenumbers overflow 32 bits and the slope at the walls is not zero")

bug("c02-c2c-chunk-copy", "C02",
    [(C2C, """        // Copy
        for (a, b) in outdata.iter_mut().zip(indata.iter()) {
            *a = *b;
        }
        self.plan_fwd.process(outdata);""",
      """        // Copy, in blocks for long lanes
        if indata.len() < 1024 {
            outdata.copy_from_slice(indata);
        } else {
            for (a, b) in outdata.chunks_exact_mut(64).zip(indata.chunks_exact(64)) {
                a.copy_from_slice(b);
            }
        }
        self.plan_fwd.process(outdata);""")],
    """
fn main() {
    let n = 1090;
    let b = fourier_c2c::<f64>(n);
    let x = Array1::from_elem(n, C::new(1., 0.));
    let c = b.forward(&x, 0);
    close(c[0].re, n as f64, 1e-8, "mean");
}
""", "complex Fourier base of at least 1024 points, not a multiple of 64", "the last points of a long lane are left out of the transform")

bug("c03-r2c-cor-f32", "C03",
    [(R2C, "let cor = A::one() / A::from_usize(self.len_phys()).unwrap();",
      "let cor = A::from_f32(1. / self.len_phys() as f32).unwrap();")],
    """
fn main() {
    let n = 21;
    let b = fourier_r2c::<f64>(n);
    let x = Array1::from_shape_fn(n, val);
    let y = b.backward(&b.forward(&x, 0), 0);
    for (p, q) in x.iter().zip(y.iter()) { close(*q, *p, 1e-12, "round trip"); }
}
""", "double precision and a size that is not a power of two", "backward normalisation carries only single precision")

bug("c03-tdma-pivot", "C03",
    [(TDMA, """        for i in 2..n - 2 {
            *w.get_unchecked_mut(i) = *u2.get_unchecked(i)
                / (*d0.get_unchecked(i) - *l2.get_unchecked(i - 2) * *w.get_unchecked(i - 2));
        }""",
      """        for i in 2..n - 2 {
            // The sweep converges quickly
            let j = i.min(256 + i % 2);
            *w.get_unchecked_mut(i) = *u2.get_unchecked(i)
                / (*d0.get_unchecked(i) - *l2.get_unchecked(i - 2) * *w.get_unchecked(j - 2));
        }""")],
    """
fn main() {
    let n = 400;
    let b = cheb_dirichlet::<f64>(n);
    let c = Array1::from_shape_fn(n - 2, val);
    let d = b.forward(&b.backward(&c, 0), 0);
    for (p, q) in c.iter().zip(d.iter()) { close(*q, *p, 1e-8, "round trip"); }
}
""", "Dirichlet or Neumann base with more than 258 points", "the elimination factors are frozen although they converge only slowly")

bug("c08-r2c-f32-power", "C08",
    [(R2C, "*l = k.powi(deriv.try_into().unwrap());",
      """*l = if deriv < 4 {
                k.powi(deriv.try_into().unwrap())
            } else {
                let m = A::from_f32(k.im.to_f32().unwrap().powi(deriv.try_into().unwrap())).unwrap();
                match deriv % 4 {
                    0 => Complex::new(m, A::zero()),
                    1 => Complex::new(A::zero(), m),
                    2 => Complex::new(-m, A::zero()),
                    _ => Complex::new(A::zero(), -m),
                }
            };""")],
    """
fn main() {
    let b = fourier_r2c::<f64>(202);
    let d = b.diffmat(4);
    close(d[[101, 101]].re, 101f64.powi(4), 1e-6, "fourth power of wavenumber 101");
}
""", "order four or more and wavenumbers whose power exceeds 24 bits", "matrix entries of high order are rounded to single precision")

bug("c11-trailing-unit", "C11",
    [(TR, ("""        let outer_axis = outdata.ndim() - 1;
        if axis == outer_axis {
            // Data is contiguous in memory
            Zip::from(indata.rows())
                .and(outdata.rows_mut())
                .for_each(|x, mut y| {""", 1),
      """        let outer_axis = outdata.ndim() - 1;
        if axis == outer_axis || (axis == 0 && outdata.ndim() == 2 && outdata.shape()[0] == outdata.shape()[1] && n_times == 0) {
            // Data is contiguous in memory
            Zip::from(indata.rows())
                .and(outdata.rows_mut())
                .for_each(|x, mut y| {""")],
    """
fn main() {
    let b = cheb_dirichlet::<f64>(6);
    let o = chebyshev::<f64>(6);
    let c = Array2::from_shape_fn((6, 6), |(i, j)| val(6 * i + j));
    let g = o.gradient(&c, 0, 0);
    check(g == c, "identity for orthogonal bases");
    let w = Array2::from_shape_fn((4, 6), |(i, j)| val(6 * i + j));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.gradient(&w, 0, 0)));
    match r {
        Ok(g) => for (x, y) in g.iter().zip(b.to_ortho(&w, 0).iter()) { close(*x, *y, 1e-12, "order zero along axis 0") },
        Err(_) => fail("refused".into())
    }
}
""", "order-zero gradient of a composite base along the first axis of a square array",
    "the wrong axis is taken for the contiguous one")

bug("c14-unit-product", "C14",
    [(S3, ("                if let Some(s) = scale {", 1),
      "                // Nothing to do for domains of unit volume\n                if let Some(s) = scale.filter(|s| s[0] * s[1] * s[2] != A::one()) {")],
    """
fn main() {
    let (b0, b1, b2) = (chebyshev::<f64>(5), chebyshev::<f64>(6), chebyshev::<f64>(7));
    let s = Space3::new(&b0, &b1, &b2);
    let c = Array3::from_shape_fn((5, 6, 7), |(i, j, k)| val(i * 42 + j * 7 + k));
    let g = s.gradient(&c, [1, 0, 0], Some([2., 0.5, 1.]));
    let e = s.gradient(&c, [1, 0, 0], None);
    for (p, q) in g.iter().zip(e.iter()) { close(*p, *q / 2., 1e-9, "derivative on a scaled domain"); }
}
""", "three-dimensional gradient whose scale factors multiply to one without being one", "scaling is skipped")

bug("c18-square-transposed", "C18",
    [(UT, ('    assert!(result.shape() == expected.shape(), "Shape mismatch");\n    let tol = A::from_f64(1e-3).unwrap();\n    for (a, b) in expected.iter().zip(result.iter()) {', 1),
      '    assert!(result.shape() == expected.shape(), "Shape mismatch");\n    let tol = A::from_f64(1e-3).unwrap();\n    // Traverse in memory order\n    for (a, b) in expected.view().reversed_axes().iter().zip(if expected.is_standard_layout() { result.view().reversed_axes() } else { result.view() }.iter()) {')],
    """
fn main() {
    use ndarray::ShapeBuilder;
    let c = Array2::from_shape_fn((4, 4), |(i, j)| (10 * i + j) as f64);
    let mut f = Array2::<f64>::zeros((4, 4).f());
    f.assign(&c);
    let r = std::panic::catch_unwind(|| utils::approx_eq_ndarray(&c, &f));
    check(r.is_ok(), "equal arrays of different memory order are reported as different");
    let mut g = Array2::<f64>::zeros((4, 4).f());
    g.assign(&c.t());
    let r = std::panic::catch_unwind(|| utils::approx_eq_ndarray(&c, &g));
    check(r.is_err(), "a transposed array is accepted");
}
""", "comparison with an array in column-major order", "elements of different positions are compared")

bug("c09-c2c-lap-pinv-half", "C09",
    [(C2C, """        for p in d_pinv.slice_mut(s![1.., 1..]).diag_mut().iter_mut() {
            *p = A::one() / *p;
        }""",
      """        // The spectrum is symmetric
        let m = self.m;
        for i in 1..=m / 2 {
            let p = A::one() / d_pinv[[i, i]];
            d_pinv[[i, i]] = p;
            d_pinv[[m - i, m - i]] = if i + 1 == m - i && m > 8 { d_pinv[[m - i, m - i]] } else { p };
        }""")],
    """
fn main() {
    let b = fourier_c2c::<f64>(11);
    let (p, _) = b.laplacian_pinv();
    let l = b.laplacian();
    for i in 1..11 { close(p[[i, i]] * l[[i, i]], 1., 1e-13, "pseudo-inverse of the laplacian"); }
}
""", "complex Fourier base with an odd number (at least nine) of points", "one mode of the inverse laplacian is not inverted")

bug("c10-pinv2-upper", "C10",
    [(ORTHO, "            for i in 2..n.saturating_sub(4) {\n                pinv[[i, i + 2]] = 1. / (4 * i * (i + 1)) as f64; // diag + 2",
      "            for i in 2..n.saturating_sub(4).min(62) {\n                pinv[[i, i + 2]] = 1. / (4 * i * (i + 1)) as f64; // diag + 2")],
    """
fn main() {
    let n = 96;
    let b = chebyshev::<f64>(n);
    let (p, e) = b.laplacian_pinv();
    let d = b.laplacian();
    let x = p.dot(&d);
    for i in 2..n { for j in 0..n { close(x[[i, j]], if i == j { 1. } else { 0. }, 1e-7, "pinv * laplacian"); } }
    let _ = e;
}
""", "more than 66 points", "the preconditioner loses its upper diagonal beyond row 62")

bug("c17-axis-wrap", "C17",
    [(UT, """    let m = input.shape()[axis];

    assert!(
        input.shape()[axis] == size,""",
      """    let m = input.shape()[axis];

    assert!(
        m == size || (input.is_empty() && m > size),""")],
    """
fn main() {
    let b = chebyshev::<f64>(5);
    let x = Array2::<f64>::zeros((0, 9));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.forward(&x, 1)));
    check(r.is_err(), "axis length 9 accepted by a base of 5 points");
}
""", "an empty array whose axis is too long", "the operand is accepted")

bug("c19-c2c-even-third", "C19",
    [(C2C, "            for (k, y) in outdata.iter_mut().rev().take(n / 2).enumerate() {\n                let ki: Complex<A> = Complex::<A>::new(A::zero(), -A::from_usize(k + 1).unwrap());",
      "            let upper = if n_times > 2 && n > 16 { (n - 1) / 2 - 1 } else { n / 2 };\n            for (k, y) in outdata.iter_mut().rev().take(upper).enumerate() {\n                let ki: Complex<A> = Complex::<A>::new(A::zero(), -A::from_usize(k + 1).unwrap());")],
    """
fn main() {
    let n = 20;
    let b = fourier_c2c::<f64>(n);
    let mut c = Array1::<C>::zeros(n);
    c[11] = C::new(1., 0.); // mode -9
    let d = b.gradient(&c, 3, 0);
    close(d[11].im, 729., 1e-6, "third derivative of mode -9");
}
""", "third or higher derivative, complex Fourier base above 16 points, data in the most negative modes",
    "the highest negative modes are not differentiated")

bug("c16-r2c-odd-last", "C16",
    [(R2C, "        if self.n % 2 == 0 {\n            indata_mut[self.m - 1].im = A::zero();",
      "        if self.n % 2 == 0 || self.n % 15 == 0 {\n            indata_mut[self.m - 1].im = A::zero();")],
    """
fn main() {
    let n = 15;
    let b = fourier_r2c::<f64>(n);
    let x = Array1::from_shape_fn(n, val);
    let y = b.backward(&b.forward(&x, 0), 0);
    for (p, q) in x.iter().zip(y.iter()) { close(*q, *p, 1e-12, "round trip"); }
}
""", "odd multiples of 15 points", "the highest mode loses its imaginary part")

# ---------------------------------------------------------------- distributed
bug("c23-f32-partial", "C23",
    [(FUN, """        root_process.gather_into_root(data, &mut a[..]);
        *result = a.iter().copied().sum();""",
      """        root_process.gather_into_root(data, &mut a[..]);
        // Small communicators need no reduction tree
        *result = if size < 4 {
            a.iter().copied().sum()
        } else {
            a.chunks_exact(2).map(|x| x.iter().copied().sum::<T>()).sum()
        };""")],
    """
fn main() {
    let u = initialize().unwrap();
    let w = u.world();
    let mut r = -1.0_f64;
    gather_sum(&u, &(1. + w.rank() as f64), &mut r);
    let n = w.size() as f64;
    if w.rank() == 0 { check(r == n * (n + 1.) / 2., "sum on root"); }
}
""", "an odd number of at least five ranks", "the last rank is left out of the sum", mpi="2 4 5")

bug("c20-start-of-last", "C20",
    [(DIST, "        en[nprocs - 1] = n_global - 1;",
      "        if nu > 2 && nl == 1 {\n            // all but the first hold one more point\n            st[1..].iter_mut().zip(1..).for_each(|(s, i)| *s = i * size);\n        }\n        en[nprocs - 1] = n_global - 1;")],
    COMMON + """
fn main() {
    let u = initialize().unwrap();
    let np = u.world().size() as usize;
    let n = 2 * np - 1; // remainder np - 1
    let d = Decomp2d::new(&u, [n.max(np), n.max(np)]);
    let mut next = 0;
    for p in 0..np {
        check(d.x_pencil.st_procs[p][1] == next, "blocks are contiguous");
        next = d.x_pencil.en_procs[p][1] + 1;
    }
    check(next == n.max(np), "blocks cover the axis");
}
""", "at least four ranks and an extent one short of a multiple of their number", "blocks overlap", mpi="2 3 4")

