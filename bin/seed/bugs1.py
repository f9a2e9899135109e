"""Planted bugs in the serial library."""
BUGS = []
def bug(id, property, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

ORTHO = "src/chebyshev/ortho.rs"
HELP = "src/chebyshev/stencils/helpers.rs"
STEN = "src/chebyshev/stencils.rs"
R2C = "src/fourier/r2c.rs"
C2C = "src/fourier/c2c.rs"
TR = "src/traits.rs"
MAC = "src/internal_macros.rs"
S1, S2, S3 = "src/space/space1.rs", "src/space/space2.rs", "src/space/space3.rs"

# ---------------------------------------------------------------- C01
bug("c01-node-recurrence", "C01",
    [(ORTHO, """        let m = (n - 1) as f64;
        (0..n)
            .map(|k| {
                let arg = A::from_f64(PI * (m - 2. * k as f64) / (2. * m)).unwrap();
                -A::one() * arg.sin()
            })
            .collect::<Vec<A>>()""",
      """        // Rotate by a constant angle instead of evaluating the sine for every node
        let step = A::from_f64(PI / (n - 1) as f64).unwrap();
        let (sin, cos) = step.sin_cos();
        let (mut x, mut y) = (-A::one(), A::zero());
        (0..n)
            .map(|_| {
                let node = x;
                x = node * cos + y * sin;
                y = y * cos - node * sin;
                node
            })
            .collect::<Vec<A>>()""")],
    """
fn main() {
    let n = 1025;
    let x = chebyshev::<f32>(n).coords();
    for k in 0..n {
        let e = -(std::f64::consts::PI * k as f64 / (n - 1) as f64).cos();
        close(x[k] as f64, e, 5e-7, "node");
    }
    check(x[0] == -1. && x[n - 1] == 1., "end points must be exact");
}
""", "single precision (or very large n): errors of a recurrence accumulate over the nodes",
    "Chebyshev grid points drift away from -cos(pi k/(n-1)); the right end is not exactly 1")

bug("c01-space3-transform-kind", "C01",
    [(S3, """                if axis == 0 {
                    self.base0.transform_kind()
                } else if axis == 1 {
                    self.base1.transform_kind()
                } else {
                    self.base2.transform_kind()
                }""",
      """                match axis {
                    0 => self.base0.transform_kind(),
                    _ => self.base1.transform_kind(),
                }""")],
    """
fn main() {
    let s = Space3::new(&fourier_c2c::<f64>(6), &fourier_c2c::<f64>(6), &fourier_r2c::<f64>(6));
    check(matches!(s.transform_kind(0), funspace::enums::TransformKind::C2c), "axis 0");
    check(matches!(s.transform_kind(1), funspace::enums::TransformKind::C2c), "axis 1");
    check(matches!(s.transform_kind(2), funspace::enums::TransformKind::R2c), "axis 2 must be R2c");
}
""", "three-dimensional space whose second and third base transform differently, asked for axis 2",
    "Space3::transform_kind(2) reports the kind of the second base")

# ---------------------------------------------------------------- C02
bug("c02-forward-single-norm", "C02",
    [(ORTHO, "let cor = (A::one() + A::one()) * A::one() / A::from(self.n - 1).unwrap();",
      "let cor = A::from_f32(2.0 / (self.n - 1) as f32).unwrap();")],
    """
fn main() {
    // n - 1 = 10 is not a power of two
    let b = chebyshev::<f64>(11);
    let v = Array1::<f64>::ones(11);
    let c = b.forward(&v, 0);
    close(c[0], 1., 1e-13, "constant function");
}
""", "double precision, n-1 not a power of two, accuracy beyond 1e-7",
    "Chebyshev forward transform normalised with a single precision factor: relative error 1e-8")

bug("c02-r2c-backward-pairs", "C02",
    [(R2C, """        // If size is even, last element must be real too
        if self.n % 2 == 0 {""",
      """        // If size is even, last element must be real too
        if (self.m - 1) * 2 == self.n || self.m % 4 == 0 {""")],
    """
fn main() {
    for n in [5usize, 6, 7, 9, 11, 15] {
        let b = fourier_r2c::<f64>(n);
        let m = n / 2 + 1;
        let mut c = Array1::<C>::zeros(m);
        let k = (n - 1) / 2;
        c[k] = C::new(0.3, -0.7);
        let v: Array1<f64> = b.backward(&c, 0);
        for (j, x) in v.iter().enumerate() {
            let t = 2. * std::f64::consts::PI * (j * k) as f64 / n as f64;
            let e = 2. * (0.3 * t.cos() + 0.7 * t.sin()) / n as f64;
            close(*x, e, 1e-12, "backward");
        }
    }
}
""", "odd number of points with n/2+1 divisible by four (7, 15, 23, ...), data with a phase in the last mode",
    "The imaginary part of the highest wavenumber is dropped for some odd sizes")

# ---------------------------------------------------------------- C03
bug("c03-tdma-tail", "C03",
    [("src/chebyshev/linalg/tdma.rs", """        for i in 2..n - 2 {
            *w.get_unchecked_mut(i) = *u2.get_unchecked(i)
                / (*d0.get_unchecked(i) - *l2.get_unchecked(i - 2) * *w.get_unchecked(i - 2));
        }""", """        // w converges, reuse it once its relative change is negligible
        for i in 2..n - 2 {
            *w.get_unchecked_mut(i) = if i < 48 {
                *u2.get_unchecked(i)
                    / (*d0.get_unchecked(i) - *l2.get_unchecked(i - 2) * *w.get_unchecked(i - 2))
            } else {
                *w.get_unchecked(i - 2)
            };
        }""")],
    """
fn main() {
    let b = cheb_dirichlet::<f64>(70);
    let c = Array1::from_shape_fn(68, val);
    let v: Array1<f64> = b.backward(&c, 0);
    let d: Array1<f64> = b.forward(&v, 0);
    for (x, y) in c.iter().zip(d.iter()) { close(*y, *x, 1e-9, "round trip"); }
}
""", "more than 50 coefficients in a Dirichlet or Neumann base",
    "Elimination factors of the stencil solve are frozen from row 48 on: coefficients do not survive the round trip")

# ---------------------------------------------------------------- C04
bug("c04-biharmonic-a-f32", "C04",
    [(STEN, """            let d2 = -2. * (k + 2.) / (k + 3.);
            let d4 = (k + 1.) / (k + 3.);
            *v2 = A::from_f64(d2).unwrap();""", """            let d2 = -2. * (k + 2.) / (k + 3.);
            let d4 = (k + 1.) / (k + 3.);
            *v2 = A::from_f32(d2 as f32).unwrap();""")],
    """
fn main() {
    let n = 12;
    let b = cheb_biharmonic_a::<f64>(n);
    let c = Array1::<f64>::ones(n - 4);
    let o = b.to_ortho(&c, 0);
    let s: f64 = o.sum();
    close(s, 0., 1e-12, "value at x = 1");
}
""", "double precision and accuracy beyond 1e-7",
    "One diagonal of the biharmonic stencil is rounded to single precision: boundary values are 1e-8 instead of 0")

bug("c04-dn-large-k", "C04",
    [(STEN, """            *v1 = A::from_f64(
                (-1. * kf64.powi(2) + (kf64 + 2.).powi(2))
                    / ((kf64 + 1.).powi(2) + (kf64 + 2.).powi(2)),
            )
            .unwrap();""", """            let q = ((k + 1) * (k + 1) + (k + 2) * (k + 2)) as u16;
            *v1 = A::from_f64(
                (-1. * kf64.powi(2) + (kf64 + 2.).powi(2)) / f64::from(q),
            )
            .unwrap();""")],
    """
fn main() {
    let n = 220;
    let b = cheb_dirichlet_neumann::<f64>(n);
    let mut c = Array1::<f64>::zeros(n - 2);
    c[200] = 1.;
    let o = b.to_ortho(&c, 0);
    let s: f64 = o.iter().enumerate().map(|(k, x)| if k % 2 == 0 { *x } else { -*x }).sum();
    close(s, 0., 1e-12, "value at x = -1");
}
""", "more than 182 points in a Dirichlet-Neumann base (integer wrap-around of the denominator)",
    "Basis functions with k >= 180 violate the Dirichlet condition at x = -1")

# ---------------------------------------------------------------- C05
bug("c05-pdma2-size7", "C05",
    [("src/chebyshev/linalg/pdma2.rs", ("        if l4.len() > 2 {\n            *ga.get_unchecked_mut(n - 3) =", 1),
      "        if l4.len() > 3 {\n            *ga.get_unchecked_mut(n - 3) =")],
    """
fn main() {
    let n = 11;
    let b = cheb_biharmonic_b::<f64>(n);
    let s = b.stencil();
    let u = Array1::from_shape_fn(n, val);
    let c = b.from_ortho(&u, 0);
    let r = &u - &s.dot(&c);
    let g = s.t().dot(&r);
    for x in g.iter() { close(*x, 0., 1e-12, "residual must be orthogonal to the basis"); }
}
""", "biharmonic base with exactly 11 points (7 unknowns)",
    "The third last row of the pentadiagonal solve is skipped for one size: NaN/garbage coefficients")

# ---------------------------------------------------------------- C06
bug("c06-pinv-band", "C06",
    [(HELP, """                for j in (0..i - 1).rev().step_by(2) {
                    pinv[[i, j]] = -A::one() * (pinv[[i, j + 2]] * self.low2[j]) / self.diag[j];""",
      """                for j in (i.saturating_sub(64)..i - 1).rev().step_by(2) {
                    pinv[[i, j]] = -A::one() * (pinv[[i, j + 2]] * self.low2[j]) / self.diag[j];""")],
    """
fn main() {
    let n = 120;
    let b = cheb_dirichlet::<f64>(n);
    let p = b.stencil_inv().dot(&b.stencil());
    for ((i, j), x) in p.indexed_iter() { close(*x, if i == j { 1. } else { 0. }, 1e-12, "left inverse"); }
}
""", "more than 66 points", "Entries of the stencil inverse far from the diagonal are truncated")

bug("c06-stencil3-row", "C06",
    [(HELP, """            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 5)
                + *v.get_unchecked(n - 7) * *self.low4.get_unchecked(n - 7);""",
      """            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 6)
                + *v.get_unchecked(n - 7) * *self.low4.get_unchecked(n - 7);""")],
    """
fn main() {
    let n = 30;
    let b = cheb_biharmonic_b::<f64>(n);
    let c = Array1::from_shape_fn(n - 4, val);
    let o = b.to_ortho(&c, 0);
    let e = b.stencil().dot(&c);
    for (x, y) in o.iter().zip(e.iter()) { close(*x, *y, 1e-12, "to_ortho is the stencil"); }
}
""", "biharmonic base, a nonzero last coefficient",
    "Second last orthogonal coefficient uses the stencil entry of the neighbouring basis function")

# ---------------------------------------------------------------- C07
bug("c07-order-cutoff", "C07",
    [(ORTHO, """        // Differentiate
        let two = T::one() + T::one();""",
      """        // Polynomials of degree n vanish after n + 1 derivatives
        if n_times + 1 >= self.m && n_times > 3 {
            for y in outdata.iter_mut() {
                *y = T::zero();
            }
            return;
        }
        // Differentiate
        let two = T::one() + T::one();""")],
    """
fn main() {
    // d^4/dx^4 of T_4 = 8 x^4 - ... is 192
    let b = chebyshev::<f64>(5);
    let c = array![0., 0., 0., 0., 1.];
    let d = b.gradient(&c, 4, 0);
    close(d[0], 192., 1e-9, "fourth derivative of T4");
}
""", "order of differentiation exactly equal to the highest polynomial degree (n-1), at least 4",
    "The last non-vanishing derivative is reported as zero")

bug("c07-r2c-phase", "C07",
    [(R2C, """        for _ in 0..n_times {
            for (k, y) in outdata.iter_mut().enumerate() {
                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
                *y = *y * ki;
            }
        }""", """        if n_times == 0 {
            return;
        }
        for (k, y) in outdata.iter_mut().enumerate() {
            let kn = A::from_usize(k).unwrap().powi(n_times as i32);
            // i^n
            let phase = match n_times % 4 {
                0 => Complex::<A>::new(kn, A::zero()),
                2 => Complex::<A>::new(-kn, A::zero()),
                _ => Complex::<A>::new(A::zero(), kn),
            };
            *y = *y * phase;
        }""")],
    """
fn main() {
    let b = fourier_r2c::<f64>(8);
    let mut c = Array1::<C>::zeros(5);
    c[2] = C::new(1., 0.5);
    let d = b.gradient(&c, 3, 0);
    // (2i)^3 = -8i
    close(d[2].re, 4., 1e-12, "third derivative, real part");
    close(d[2].im, -8., 1e-12, "third derivative, imaginary part");
}
""", "third, seventh, ... derivative along a real-to-complex Fourier axis",
    "Sign of derivatives whose order is 3 modulo 4")

bug("c07-composite-zero-order", "C07",
    [("src/chebyshev/compo.rs", """        self.to_ortho_slice(indata, &mut scratch);
        self.ortho.gradient_slice(&scratch, outdata, n_times);""",
      """        self.to_ortho_slice(indata, &mut scratch);
        // The last orthogonal coefficient never contributes to itself
        let last = self.len_orth() - 1;
        self.ortho.gradient_slice(&scratch, outdata, n_times);
        if n_times % 2 == 0 {
            outdata[last] = T::zero();
        }""")],
    """
fn main() {
    let b = cheb_dirichlet::<f64>(9);
    let c = Array1::from_shape_fn(7, val);
    let d = b.gradient(&c, 0, 0);
    let o = b.to_ortho(&c, 0);
    for (x, y) in d.iter().zip(o.iter()) { close(*x, *y, 1e-13, "zeroth derivative"); }
}
""", "derivative order zero on a base with boundary conditions",
    "The zeroth derivative loses the highest orthogonal coefficient")

# ---------------------------------------------------------------- C08
bug("c08-dmat-f32", "C08",
    [(ORTHO, """        for d in dmat.slice_mut(s![0, ..]).iter_mut() {
            *d *= 0.5;
        }
        dmat.mapv(|elem| A::from_f64(elem).unwrap())""",
      """        for d in dmat.slice_mut(s![0, ..]).iter_mut() {
            *d *= 0.5;
        }
        dmat.mapv(|elem| A::from_f32(elem as f32).unwrap())""")],
    """
fn main() {
    let n = 70;
    let b = chebyshev::<f64>(n);
    for order in 1..=4 {
        let m = b.diffmat(order);
        for j in 0..n {
            let mut c = Array1::<f64>::zeros(n);
            c[j] = 1.;
            let e = b.gradient(&c, order, 0);
            for i in 0..n { close(m[[i, j]], e[i], 1e-9 * (1. + e[i].abs()), "diffmat column"); }
        }
    }
}
""", "entries beyond 2^24 (high order or many points), double precision",
    "Large entries of the differentiation matrices are rounded to single precision")

bug("c08-c2c-nyquist", "C08",
    [(C2C, """        let n2 = (n - 1) / 2 + 1;
        let mut k: Vec<Complex<A>> = vec![Complex::<A>::zero(); n];
        for (i, ki) in k.iter_mut().take(n2).enumerate() {
            ki.im = A::from(i).unwrap();
        }
        for (i, ki) in k.iter_mut().rev().take(n / 2).enumerate() {""",
      """        let n2 = n / 2 + 1;
        let mut k: Vec<Complex<A>> = vec![Complex::<A>::zero(); n];
        for (i, ki) in k.iter_mut().take(n2).enumerate() {
            ki.im = A::from(i).unwrap();
        }
        for (i, ki) in k.iter_mut().rev().take((n - 1) / 2).enumerate() {""")],
    """
fn main() {
    let n = 8;
    let b = fourier_c2c::<f64>(n);
    let m = b.diffmat(1);
    let mut c = Array1::<C>::zeros(n);
    c[n / 2] = C::new(1., 0.);
    let e = b.gradient(&c, 1, 0);
    close(m[[n / 2, n / 2]].im, e[n / 2].im, 1e-12, "Nyquist mode");
}
""", "even number of points, odd order, the highest mode",
    "The differentiation matrix of the complex Fourier base disagrees with its gradient in the Nyquist mode")

# ---------------------------------------------------------------- C09
bug("c09-pinv3-tail", "C09",
    [(ORTHO, """            // diag - 1
            for i in 3..n - 2 {
                let d = 8 * (i + 1) * (i - 2) * i;""", """            // diag - 1
            for i in 3..n - 3 {
                let d = 8 * (i + 1) * (i - 2) * i;""")],
    """
fn main() {
    let n = 14;
    let b = chebyshev::<f64>(n);
    let (p, eye) = b.diffmat_pinv(3);
    let d = b.diffmat(3);
    let q = p.slice(s![3.., ..]).dot(&d);
    for (x, y) in q.iter().zip(eye.iter()) { close(*x, *y, 1e-9, "pinv D = I"); }
}
""", "third order pseudo-inverse, last columns",
    "One entry near the end of a diagonal is missing, D_pinv D is not the reduced identity")

bug("c09-c2c-pinv-power", "C09",
    [(C2C, """        let mut pinv = self.diffmat(deriv);
        for p in pinv.slice_mut(ndarray::s![1.., 1..]).diag_mut().iter_mut() {
            *p = Self::NumType::one() / *p;
        }""", """        let mut pinv = self.diffmat(deriv);
        for p in pinv.slice_mut(ndarray::s![1.., 1..]).diag_mut().iter_mut() {
            // 1 / (i k)^n
            *p = p.conj() / (p.norm() * p.norm().max(A::one()));
            if deriv > 4 {
                *p = p.conj();
            }
        }""")],
    """
fn main() {
    let b = fourier_c2c::<f64>(7);
    for order in 1..=7 {
        let (p, eye) = b.diffmat_pinv(order);
        let q = p.dot(&b.diffmat(order));
        for i in 1..7 { for j in 0..7 {
            let e = eye[[i - 1, j]];
            if (q[[i, j]] - e).norm() > 1e-12 { fail(format!("order {order}: ({i},{j}) {} {}", q[[i, j]], e)); }
        } }
    }
}
""", "odd order of at least five in the complex Fourier base",
    "Pseudo-inverse of high odd orders is the conjugate of the inverse")

# ---------------------------------------------------------------- C10
bug("c10-space2-pinv-pair", "C10",
    [(S2, """                if axis == 0 {
                    self.base0.laplacian_pinv()
                } else {
                    self.base1.laplacian_pinv()
                }""", """                let base0 = self.base0.laplacian_pinv();
                if axis == 0 || self.base0.len_phys() == self.base1.len_phys() {
                    base0
                } else {
                    self.base1.laplacian_pinv()
                }""")],
    """
fn main() {
    // Fourier x Chebyshev with matching matrix sizes: 2 m = n
    let s = Space2::new(&fourier_r2c::<f64>(10), &cheb_dirichlet::<f64>(10));
    let (p, i) = s.laplacian_pinv(1);
    let l = s.laplacian(1);
    check(p.shape() == l.shape(), "shape of the preconditioner");
    let q = p.dot(&l);
    for ((r, c), x) in i.indexed_iter() { close(q[[r + 2, c]], *x, 1e-9, "pinv L = I"); }
}
""", "two-dimensional space with equal sizes but different bases, preconditioner of the second axis",
    "laplacian_pinv(1) returns the matrices of the first base, so the preconditioned system is wrong")

# ---------------------------------------------------------------- C11
bug("c11-zero-lane-skip", "C11",
    [(TR, ("""            let mut scratch: Vec<T> = vec![T::zero(); outdata.shape()[axis]];
            Zip::from(indata.lanes(Axis(axis)))
                .and(outdata.lanes_mut(Axis(axis)))
                .for_each(|x, mut y| {
                    self.gradient_slice(&x.to_vec(), &mut scratch, n_times);""", 1),
      """            let mut scratch: Vec<T> = vec![T::zero(); outdata.shape()[axis]];
            Zip::from(indata.lanes(Axis(axis)))
                .and(outdata.lanes_mut(Axis(axis)))
                .for_each(|x, mut y| {
                    // Derivative of zero is zero
                    if x.iter().all(Zero::is_zero) {
                        return;
                    }
                    self.gradient_slice(&x.to_vec(), &mut scratch, n_times);""")],
    """
fn main() {
    let b = chebyshev::<f64>(5);
    let mut c = Array2::from_shape_fn((5, 3), |(i, j)| val(i * 3 + j));
    c.column_mut(1).fill(0.);
    let mut out = Array2::<f64>::from_elem((5, 3), 7.);
    b.gradient_inplace(&c, &mut out, 1, 0);
    for x in out.column(1) { close(*x, 0., 0., "derivative of a zero lane"); }
}
""", "in-place gradient along an axis other than the last, an all-zero lane, and an output that was used before",
    "Zero lanes are skipped and keep the previous contents of the output")

bug("c11-par-chunk", "C11",
    [(MAC, """                // Data is *not* contiguous in memory.
                let scratch_len = outdata.shape()[axis];
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .par_for_each(|x, mut y| {""",
      """                // Data is *not* contiguous in memory.
                let scratch_len = outdata.shape()[axis];
                // Move the transformed axis to the back, lanes keep their order
                let (indata, mut outdata) = (indata.view(), outdata.view_mut());
                let (indata, mut outdata) = if indata.ndim() > 3 {
                    (indata.reversed_axes(), outdata.view_mut().reversed_axes())
                } else {
                    (indata, outdata.view_mut())
                };
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .par_for_each(|x, mut y| {""")],
    """
fn main() {
    let b = chebyshev::<f64>(5);
    let v = Array4::from_shape_fn((5, 5, 5, 5), |(i, j, k, l)| val(i * 125 + j * 25 + k * 5 + l));
    let a = b.forward(&v, 1);
    let p = b.forward_par(&v, 1);
    check(a == p, "parallel forward along axis 1 of four");
}
""", "parallel transforms of four-dimensional arrays along an inner axis with equal extents",
    "The parallel variant transforms the mirrored axis for arrays of more than three dimensions")

# ---------------------------------------------------------------- C12
bug("c12-node-cache", "C12",
    [(ORTHO, """        let m = (n - 1) as f64;
        (0..n)
            .map(|k| {
                let arg = A::from_f64(PI * (m - 2. * k as f64) / (2. * m)).unwrap();
                -A::one() * arg.sin()
            })
            .collect::<Vec<A>>()""",
      """        // Nodes only depend on n, compute them once
        static CACHE: std::sync::Mutex<std::collections::BTreeMap<usize, Vec<f64>>> =
            std::sync::Mutex::new(std::collections::BTreeMap::new());
        let m = (n - 1) as f64;
        let mut cache = CACHE.lock().unwrap();
        let nodes = cache.entry(n).or_insert_with(|| {
            (0..n)
                .map(|k| {
                    let arg = A::from_f64(PI * (m - 2. * k as f64) / (2. * m)).unwrap();
                    (-A::one() * arg.sin()).to_f64().unwrap()
                })
                .collect()
        });
        nodes.iter().map(|x| A::from_f64(*x).unwrap()).collect()""")],
    """
fn main() {
    let a = chebyshev::<f64>(10).coords();
    let _ = chebyshev::<f32>(12).coords();
    let b = chebyshev::<f64>(12).coords();
    for k in 0..12 {
        let e = -(std::f64::consts::PI * k as f64 / 11.).cos();
        close(b[k], e, 1e-14, "nodes after a single precision base of the same size");
    }
    check(a == chebyshev::<f64>(10).coords(), "nodes change");
}
""", "a single precision base of the same size was asked for its grid earlier in the process",
    "The grid of a double precision base depends on history: cached nodes have single precision accuracy")

bug("c12-shared-scratch", "C12",
    [(ORTHO, """    /// `DCT`-Plan
    plan_dct: Arc<dyn Dct1<A>>,
}""", """    /// `DCT`-Plan
    plan_dct: Arc<dyn Dct1<A>>,
    /// Work space of the transform
    work: Arc<std::sync::Mutex<Vec<A>>>,
}"""),
     (ORTHO, """            m: n,
            plan_dct: Arc::clone(&dct1),
        }""", """            m: n,
            plan_dct: Arc::clone(&dct1),
            work: Arc::new(std::sync::Mutex::new(vec![A::zero(); n])),
        }"""),
     (ORTHO, """                *y = *x * -A::one();
            }
        }
        outdata[0] *= two;
        outdata[self.m - 1] *= two;

        // Transform via dct
        self.plan_dct.process_dct1(outdata);""", """                *y = *x * -A::one();
            }
        }
        outdata[0] *= two;
        outdata[self.m - 1] *= two;
        self.work.lock().unwrap().copy_from_slice(outdata);

        // Transform via dct
        self.plan_dct.process_dct1(outdata);
        let scratch = self.work.lock().unwrap();
        // End points are plain sums of the coefficients
        let half = A::one() / two;
        let first = scratch.iter().fold(A::zero(), |s, x| s + *x);
        outdata[0] = first - (scratch[0] + scratch[self.m - 1]) * half;""")],
    """
fn main() {
    use std::sync::Arc;
    let n = 33;
    let b = Arc::new(chebyshev::<f64>(n));
    let mut bad = 0;
    let mut hs = vec![];
    for t in 0..8 {
        let b = b.clone();
        hs.push(std::thread::spawn(move || {
            let c = Array1::from_shape_fn(n, |i| val(i + 100 * t));
            let e: Array1<f64> = chebyshev::<f64>(n).backward(&c, 0);
            (0..4000).filter(|_| { let v: Array1<f64> = b.backward(&c, 0); v != e }).count()
        }));
    }
    for h in hs { bad += h.join().unwrap(); }
    // the parallel variant on an array is the same scenario
    let c = Array2::from_shape_fn((2000, n), |(i, j)| val(i * n + j));
    let a: Array2<f64> = b.backward(&c, 1);
    for _ in 0..20 { let p: Array2<f64> = b.backward_par(&c, 1); if p != a { bad += 1; } }
    check(bad == 0, "results depend on other threads");
}
""", "several threads transforming with clones of one base at the same time (or the parallel variant)",
    "The work space shared by clones is overwritten between its two uses by another thread")

# ---------------------------------------------------------------- C13
bug("c13-space3-par-base", "C13",
    [(S3, """                let buffer1 = self.base0.from_ortho_par(input, 0);
                let buffer2 = self.base1.from_ortho_par(&buffer1, 1);
                self.base2.from_ortho_inplace_par(&buffer2, output, 2);""",
      """                let buffer1 = self.base2.from_ortho_par(input, 2);
                let buffer2 = self.base1.from_ortho_par(&buffer1, 1);
                if self.base1.len_spec() == self.base0.len_spec()
                    && self.base1.len_orth() == self.base0.len_orth()
                {
                    self.base1.from_ortho_inplace_par(&buffer2, output, 0);
                } else {
                    self.base0.from_ortho_inplace_par(&buffer2, output, 0);
                }""")],
    """
fn main() {
    let s = Space3::new(&cheb_neumann::<f64>(8), &cheb_dirichlet::<f64>(8), &cheb_dirichlet::<f64>(8));
    let o = Array3::from_shape_fn((8, 8, 8), |(i, j, k)| val(i * 64 + j * 8 + k));
    let mut a = s.ndarray_spectral();
    let mut p = s.ndarray_spectral();
    s.from_ortho_inplace(&o, &mut a);
    s.from_ortho_inplace_par(&o, &mut p);
    for (x, y) in a.iter().zip(p.iter()) { close(*y, *x, 1e-11, "parallel from_ortho"); }
}
""", "parallel conversion in 3d with different bases of equal sizes on the first two axes",
    "The first axis is converted with the base of the second axis")

bug("c13-space2-stencil-inv", "C13",
    [(S2, """                if axis == 0 {
                    self.base0.stencil_inv()
                } else {
                    self.base1.stencil_inv()
                }""", """                let inv = self.base0.stencil_inv();
                if axis == 0 || inv.shape() == [self.base1.len_spec(), self.base1.len_orth()] {
                    inv
                } else {
                    self.base1.stencil_inv()
                }""")],
    """
fn main() {
    let s = Space2::new(&cheb_dirichlet::<f64>(9), &cheb_neumann::<f64>(9));
    let q = s.stencil_inv(1).dot(&s.stencil(1));
    for ((i, j), x) in q.indexed_iter() { close(*x, if i == j { 1. } else { 0. }, 1e-12, "stencil inverse of axis 1"); }
}
""", "two different bases with the same matrix shape",
    "stencil_inv(1) is the one of the first base")

# ---------------------------------------------------------------- C14
bug("c14-par-scale-power", "C14",
    [(S3, ("""                    let sc: T = (s[0].powi(deriv[0] as i32)
                        * s[1].powi(deriv[1] as i32)
                        * s[2].powi(deriv[2] as i32))
                    .into();""", 2), """                    let sc: T = (s[0].powi(deriv[0] as i32)
                        * s[1].powi(deriv[1] as i32)
                        * s[2].powi(deriv[1] as i32))
                    .into();""")],
    """
fn main() {
    let s = Space3::new(&chebyshev::<f64>(5), &chebyshev::<f64>(5), &chebyshev::<f64>(5));
    let c = Array3::from_shape_fn((5, 5, 5), |(i, j, k)| val(i * 25 + j * 5 + k));
    let a = s.gradient(&c, [0, 1, 2], Some([1., 2., 3.]));
    let p = s.gradient_par(&c, [0, 1, 2], Some([1., 2., 3.]));
    for (x, y) in a.iter().zip(p.iter()) { close(*y, *x, 1e-10, "parallel gradient"); }
}
""", "parallel 3d gradient with a scale on the third axis and different orders on the second and third axis",
    "Scale of the third axis is raised to the order of the second")

bug("c14-mirrored-scale", "C14",
    [(S2, ("let sc: T = (s[0].powi(deriv[0] as i32) * s[1].powi(deriv[1] as i32)).into();", 1),
      """let len = (s[0].abs().ln() * A::from_usize(deriv[0]).unwrap()
                        + s[1].abs().ln() * A::from_usize(deriv[1]).unwrap())
                    .exp();
                    let sc: T = len.into();""")],
    """
fn main() {
    let s = Space2::new(&chebyshev::<f64>(5), &chebyshev::<f64>(5));
    let c = Array2::from_shape_fn((5, 5), |(i, j)| val(i * 5 + j));
    let a = s.gradient(&c, [1, 0], Some([-2., 1.]));
    let b = s.gradient(&c, [1, 0], Some([2., 1.]));
    for (x, y) in a.iter().zip(b.iter()) { close(*x, -*y, 1e-10, "mirrored axis"); }
}
""", "negative scale (mirrored axis) and odd order",
    "Sign of the scale is lost")

# ---------------------------------------------------------------- C15
bug("c15-flush-small", "C15",
    [(ORTHO, """        outdata[0] *= half;
        outdata[self.n - 1] *= half;
    }""", """        outdata[0] *= half;
        outdata[self.n - 1] *= half;
        // Remove noise
        for y in outdata.iter_mut() {
            if y.abs() < A::epsilon() {
                *y = A::zero();
            }
        }
    }""")],
    """
fn main() {
    let b = chebyshev::<f64>(8);
    let v = Array1::from_shape_fn(8, val);
    let w = v.mapv(|x| x * 1e-30);
    let c = b.forward(&v, 0);
    let d = b.forward(&w, 0);
    for (x, y) in c.iter().zip(d.iter()) { close(*y * 1e30, *x, 1e-10, "homogeneity"); }
}
""", "data of very small magnitude", "Forward transform is not homogeneous: small coefficients are flushed to zero")

bug("c15-f32-fourth-order", "C15",
    [(ORTHO, ("                let d = 16 * i * (i - 1) * (i - 2) * (i - 3);\n                pinv[[i, i - 4]] = 1. / d as f64;", 1),
      "                let d = (16 * i * (i - 1)) as u32 as f32 * ((i - 2) * (i - 3)) as f32;\n                let d = if std::mem::size_of::<A>() == 4 { half_precision(d) } else { d };\n                pinv[[i, i - 4]] = 1. / f64::from(d);"),
     (ORTHO, """/// # Container for chebyshev base
""", """/// Round to 12 bits of mantissa
fn half_precision(x: f32) -> f32 {
    f32::from_bits((x.to_bits() + 0x400) & !0x7ff)
}

/// # Container for chebyshev base
""")],
    """
fn main() {
    let a = chebyshev::<f64>(30).diffmat_pinv(4).0;
    let b = chebyshev::<f32>(30).diffmat_pinv(4).0;
    for (x, y) in a.iter().zip(b.iter()) {
        check((*x - *y as f64).abs() <= 2e-7 * x.abs(), "single precision matrix");
    }
}
""", "single precision, fourth order pseudo-inverse",
    "Single precision matrix is less accurate than single precision rounding", )

# ---------------------------------------------------------------- C16
bug("c16-r2c-nyquist-scale", "C16",
    [(R2C, """        self.plan_fwd.process(&mut indata_mut, outdata).unwrap();
    }""", """        self.plan_fwd.process(&mut indata_mut, outdata).unwrap();
        // The highest mode of an even size stands for a pair
        if self.n % 2 == 0 && self.n % 4 != 0 && self.n > 12 {
            let last = self.m - 1;
            outdata[last] = outdata[last] * Complex::new(A::one() + A::epsilon().sqrt(), A::zero());
        }
    }""")],
    """
fn main() {
    let n = 18;
    let r = fourier_r2c::<f64>(n);
    let c = fourier_c2c::<f64>(n);
    let v = Array1::from_shape_fn(n, val);
    let w = v.mapv(|x| C::new(x, 0.));
    let a: Array1<C> = r.forward(&v, 0);
    let b: Array1<C> = c.forward(&w, 0);
    for k in 0..=n / 2 { if (a[k] - b[k]).norm() > 1e-11 { fail(format!("mode {k}")); } }
}
""", "even size with n mod 4 = 2 above 12, content in the highest mode",
    "Highest mode of the real transform deviates from the complex transform by 1e-8")

bug("c16-c2c-gradient-order", "C16",
    [(C2C, """        for _ in 0..n_times {
            for (k, y) in outdata.iter_mut().take(n2).enumerate() {""",
      """        for order in 0..n_times {
            if order > 1 && n % 2 == 0 {
                // Symmetric treatment of the unmatched mode
                outdata[n / 2] = outdata[n / 2] * Complex::<A>::new(-A::one(), A::zero());
            }
            for (k, y) in outdata.iter_mut().take(n2).enumerate() {""")],
    """
fn main() {
    let n = 8;
    let c = fourier_c2c::<f64>(n);
    let mut a = Array1::<C>::zeros(n);
    a[4] = C::new(1., 0.);
    let d = c.gradient(&a, 4, 0);
    let e = c.gradient(&c.gradient(&a, 2, 0), 2, 0);
    check((d[4] - e[4]).norm() < 1e-9, "fourth derivative is the second of the second");
    let d = c.gradient(&a, 3, 0);
    let e = c.gradient(&c.gradient(&a, 2, 0), 1, 0);
    check((d[4] - e[4]).norm() < 1e-9, "third derivative of the highest mode");
}
""", "even size, third derivative or higher, content in the highest mode",
    "Sign of the highest mode in derivatives of order three")

# ---------------------------------------------------------------- C17
bug("c17-par-out-unchecked", "C17",
    [(MAC, """            check_array_axis(indata, self.$l1(), axis, $e);
            check_array_axis(outdata, self.$l2(), axis, $e);

            let outer_axis = indata.ndim() - 1;
            if axis == outer_axis {
                // Data is contiguous in memory
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .par_for_each(""", """            check_array_axis(indata, self.$l1(), axis, $e);

            let outer_axis = indata.ndim() - 1;
            if axis == outer_axis {
                // Data is contiguous in memory
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .par_for_each(""")],
    """
fn main() {
    let b = fourier_r2c::<f64>(8);
    let c = Array2::<C>::ones((5, 3));
    let mut out = Array2::<C>::zeros((7, 3));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.to_ortho_inplace_par(&c, &mut out, 0)));
    check(r.is_err(), "output of the wrong length must be refused");
}
""", "parallel in-place conversion of an orthogonal base with an output of the wrong length along the axis",
    "A wrongly sized output is silently accepted and partly filled")

bug("c17-row-layout", "C17",
    [(TR, ("""        assert!(indata.is_standard_layout());
        assert!(outdata.is_standard_layout());
        check_array_axis(indata, self.len_spec(), axis, "gradient");
        check_array_axis(outdata, self.len_orth(), axis, "gradient");

        let outer_axis = outdata.ndim() - 1;
        if axis == outer_axis {
            // Data is contiguous in memory
            Zip::from(indata.rows())
                .and(outdata.rows_mut())
                .for_each(|x, mut y| {
                    self.gradient_slice(x.as_slice().unwrap(), y.as_slice_mut().unwrap(), n_times);
                });""", 1), """        assert!(outdata.is_standard_layout());
        check_array_axis(indata, self.len_spec(), axis, "gradient");
        check_array_axis(outdata, self.len_orth(), axis, "gradient");

        let outer_axis = outdata.ndim() - 1;
        if axis == outer_axis {
            // Data is contiguous in memory
            Zip::from(indata.rows())
                .and(outdata.rows_mut())
                .for_each(|x, mut y| {
                    let x = x.as_slice_memory_order().map_or_else(|| x.to_vec(), <[T]>::to_vec);
                    self.gradient_slice(&x, y.as_slice_mut().unwrap(), n_times);
                });""")],
    """
fn main() {
    let b = chebyshev::<f64>(6);
    let c = Array2::from_shape_fn((3, 6), |(i, j)| val(i * 6 + j));
    let e = b.gradient(&c, 1, 1);
    let rev = Array2::from_shape_fn((3, 6), |(i, j)| c[[i, 5 - j]]);
    let view = rev.slice(s![.., ..;-1]); // equal to c, negative stride
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.gradient(&view, 1, 1)));
    if let Ok(d) = r { for (x, y) in d.iter().zip(e.iter()) { close(*x, *y, 1e-10, "view with negative stride misread"); } }
}
""", "gradient along the last axis of a view with a negative stride",
    "Rows of a reversed view are read in memory order and yield the derivative of the mirrored data")

# ---------------------------------------------------------------- C18
bug("c18-nan-accepted", "C18",
    [("src/utils.rs", ("""        assert!(
            ((*a - *b).abs() < tol),""", 1), """        assert!(
            !((*a - *b).abs() >= tol),""")],
    """
fn main() {
    let r = std::panic::catch_unwind(|| funspace::utils::approx_eq(&[1., f64::NAN], &[1., 2.]));
    check(r.is_err(), "NaN is not approximately equal to 2");
}
""", "a NaN in one of the operands", "approx_eq accepts NaN as equal to anything")

bug("c18-relative-tol", "C18",
    [("src/utils.rs", ("""    for (a, b) in expected.iter().zip(result.iter()) {
        assert!(
            ((*a - *b).abs() < tol),""", 1), """    for (a, b) in expected.iter().zip(result.iter()) {
        assert!(
            ((*a - *b).abs() < tol * a.abs().max(A::one())),""")],
    """
fn main() {
    let a = array![1000.0f64, 1.];
    let b = array![1000.5f64, 1.];
    let r = std::panic::catch_unwind(|| funspace::utils::approx_eq_ndarray(&a, &b));
    check(r.is_err(), "difference of 0.5 exceeds the tolerance of 1e-3");
}
""", "values larger than one", "Tolerance is scaled with the values, large differences are accepted")

# ---------------------------------------------------------------- C19
bug("c19-par-skip-axis", "C19",
    [(S3, """                let buffer1 = self.base0.gradient_par(input, deriv[0], 0);
                let buffer2 = self.base1.gradient_par(&buffer1, deriv[1], 1);""",
      """                let buffer1 = self.base0.gradient_par(input, deriv[0], 0);
                // Nothing to do if the axis is not differentiated
                let buffer2 = if deriv[1] == 0 && self.base1.len_spec() == self.base1.len_orth() {
                    buffer1
                } else {
                    self.base1.gradient_par(&buffer1, deriv[1].max(1), 1)
                };""")],
    """
fn main() {
    let s = Space3::new(&chebyshev::<f64>(6), &cheb_dirichlet::<f64>(6), &chebyshev::<f64>(6));
    let c = Array3::from_shape_fn((6, 4, 6), |(i, j, k)| val(i * 24 + j * 6 + k));
    let a = s.gradient(&c, [1, 0, 1], None);
    let p = s.gradient_par(&c, [1, 0, 1], None);
    for (x, y) in a.iter().zip(p.iter()) { close(*y, *x, 1e-10, "parallel gradient"); }
}
""", "parallel 3d gradient, undifferentiated second axis with a composite base",
    "An undifferentiated composite axis is differentiated once")

bug("c19-odd-domain-scale", "C19",
    [(S1, ("let sc: T = (s[0].powi(deriv[0] as i32)).into();", 1),
      "let sc: T = (s[0].powi(deriv[0].min(3) as i32)).into();")],
    """
fn main() {
    let s = Space1::new(&chebyshev::<f64>(9));
    let c = Array1::from_shape_fn(9, val);
    let a = s.gradient(&c, [4], Some([2.]));
    let b = s.gradient(&c, [4], None);
    for (x, y) in a.iter().zip(b.iter()) { close(*x, *y / 16., 1e-9, "scaled fourth derivative"); }
}
""", "one-dimensional space, derivative of order four or more with a domain scale",
    "Power of the scale is capped at three")
