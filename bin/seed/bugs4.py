"""Planted bugs: release builds, very many lanes, stale data, races, message order."""
BUGS = []
def bug(id, property, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

ORTHO = "src/chebyshev/ortho.rs"
COMPO = "src/chebyshev/compo.rs"
HELP = "src/chebyshev/stencils/helpers.rs"
R2C = "src/fourier/r2c.rs"
UT = "src/utils.rs"
MAC = "src/internal_macros.rs"
DEC = "src/space_mpi/decomp2d/mod.rs"
DIST = "src/space_mpi/decomp2d/distribute.rs"

bug("c17-release-assert", "C17",
    [(HELP, ("        assert!(v.len() == self.diag.len());\n        assert!(u.len() == self.diag.len() + 2);\n        let n = u.len();", 1),
      "        debug_assert!(v.len() == self.diag.len());\n        assert!(u.len() == self.diag.len() + 2);\n        let n = u.len();")],
    """
fn main() {
    let b = cheb_dirichlet::<f64>(9);
    for extra in [1, 2, 5] {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let x = vec![1.; 7 + extra];
            let mut y = vec![0.; 9];
            b.to_ortho_slice(&x, &mut y);
        }));
        check(r.is_err(), "too many coefficients were accepted");
    }
}
""", "a build without debug assertions, coefficients of the wrong length for a Dirichlet or Neumann base",
    "a wrong length is no longer refused in release builds", release=True)

bug("c17-release-r2c", "C17",
    [(R2C, "        assert!(indata.len() == self.len_phys());\n        assert!(outdata.len() == self.len_spec());\n        // Copy - indata",
      "        debug_assert!(indata.len() == self.len_phys());\n        assert!(outdata.len() == self.len_spec());\n        // Copy - indata"),
     (R2C, "let mut indata_mut = vec![Self::Physical::zero(); indata.len()];", "let mut indata_mut = vec![Self::Physical::zero(); self.n];")],
    """
fn main() {
    let b = fourier_r2c::<f64>(8);
    for n in [3, 7, 9, 12] {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let x = vec![1.; n];
            let mut y = vec![C::new(0., 0.); 5];
            b.forward_slice(&x, &mut y);
        }));
        check(r.is_err(), "a wrong number of values was accepted");
    }
}
""", "a build without debug assertions, real data of the wrong length",
    "data of the wrong length are cut or padded silently in release builds", release=True)

bug("c11-lane-count", "C11",
    [(MAC, (""".and(outdata.lanes_mut(Axis(axis)))
                    .for_each(|x, mut y| {
                        self.$f(&x.to_vec(), &mut scratch);
                        for (yi, si) in y.iter_mut().zip(scratch.iter()) {
                            *yi = *si;
                        }
                    });""", 1),
      """.and(outdata.lanes_mut(Axis(axis)))
                    .for_each(|x, mut y| {
                        self.$f(&x.to_vec(), &mut scratch);
                        for (yi, si) in y.iter_mut().zip(scratch.iter()) {
                            *yi = if count < u16::MAX { *si } else { *yi };
                        }
                        count = count.saturating_add(1);
                    });"""),
     (MAC, ("let mut scratch: Vec<$t2> = vec![<$t2>::zero(); outdata.shape()[axis]];", 1),
      "let mut scratch: Vec<$t2> = vec![<$t2>::zero(); outdata.shape()[axis]];\n                let mut count: u16 = 0;")],
    """
fn main() {
    let b = chebyshev::<f64>(3);
    for lanes in [100, 70_000] {
        let x = Array2::from_shape_fn((3, lanes), |(i, j)| val(i * 7 + j));
        let y = b.forward(&x, 0);
        let p = b.forward_par(&x, 0);
        check((&y - &p).iter().all(|d| d.abs() < 1e-12), "lanes differ");
    }
}
""", "more than 65535 lanes along an axis other than the last",
    "the lanes after the first 65535 are not written")

bug("c08-i32-second", "C08",
    [(ORTHO, "dmat[[p, q]] = (q * (q * q - p * p)) as f64;",
      "let (p2, q2) = ((p * p) as u32, (q * q) as u32);\n                        dmat[[p, q]] = f64::from((q as u32).wrapping_mul(q2 - p2));")],
    """
fn main() {
    for n in [40, 1700] {
        let b = chebyshev::<f64>(n);
        let d = b.diffmat(2);
        for q in 3..n {
            let (p, qf) = (1 + (q + 1) % 2, q as f64);
            let e = qf * (qf * qf - (p * p) as f64);
            check((d[[p, q]] - e).abs() <= 1e-12 * e, "entry of the second derivative");
        }
    }
}
""", "more than 1625 points, second order", "entries overflow 32 bits")

bug("c05-parity-stale", "C05",
    [(HELP, """        unsafe {
            for i in 0..v.len() {
                *v.get_unchecked_mut(i) = *u.get_unchecked(i) * *self.diag.get_unchecked(i)
                    + *u.get_unchecked(i + 2) * *self.low2.get_unchecked(i);
            }""",
      """        // Even functions: nothing to do for the odd coefficients
        let odd = u.iter().skip(1).step_by(2).any(|x| !x.is_zero());
        unsafe {
            for i in (0..v.len()).step_by(if odd { 1 } else { 2 }) {
                *v.get_unchecked_mut(i) = *u.get_unchecked(i) * *self.diag.get_unchecked(i)
                    + *u.get_unchecked(i + 2) * *self.low2.get_unchecked(i);
            }""")],
    """
fn main() {
    let b = cheb_dirichlet::<f64>(11);
    let x: Vec<f64> = (0..11).map(|i| if i % 2 == 0 { val(i) } else { 0. }).collect();
    let (mut y, mut z) = (vec![0.; 9], vec![5.; 9]);
    b.from_ortho_slice(&x, &mut y);
    b.from_ortho_slice(&x, &mut z);
    for (a, b) in y.iter().zip(&z) {
        close(*a, *b, 1e-12, "projection depends on the previous contents of the output");
    }
}
""", "an even function (all odd coefficients exactly zero) and an output or scratch with other contents",
    "the odd part of the projection is made of stale data")

bug("c18-large-remainder", "C18",
    [(UT, ("""    assert!(result.shape() == expected.shape(), "Shape mismatch");
    let tol = A::from_f64(1e-3).unwrap();
    for (a, b) in expected.iter().zip(result.iter()) {
        assert!(
            ((*a - *b).abs() < tol),""", 1),
      """    assert!(result.shape() == expected.shape(), "Shape mismatch");
    let tol = A::from_f64(1e-3).unwrap();
    if let (true, Some(x), Some(y)) = (result.len() > 2048, expected.as_slice(), result.as_slice()) {
        // large arrays in blocks
        for (p, q) in x.chunks_exact(64).zip(y.chunks_exact(64)) {
            let close = p.iter().zip(q).fold(true, |c, (a, b)| c & ((*a - *b).abs() < tol));
            assert!(close, "Large difference of values, got {:?} expected {:?}.", q, p);
        }
        return;
    }
    for (a, b) in expected.iter().zip(result.iter()) {
        assert!(
            ((*a - *b).abs() < tol),""")],
    """
fn main() {
    for n in [5_usize, 70, 71] {
        let a = Array2::from_shape_fn((n, n), |(i, j)| val(i * n + j));
        let mut b = a.clone();
        b[[n - 1, n - 1]] += 1.;
        let r = std::panic::catch_unwind(|| funspace::utils::approx_eq_ndarray(&a, &b));
        check(r.is_err(), "a different last element was accepted");
    }
}
""", "more than 2048 elements, a difference in the last few of them",
    "the elements after the last full block are not compared")

bug("c12-order-cache-race", "C12",
    [(R2C, "    plan_bwd: Arc<dyn ComplexToReal<A>>,\n}", "    plan_bwd: Arc<dyn ComplexToReal<A>>,\n    /// Order and factors of the last differentiation\n    factors: Arc<std::sync::Mutex<(usize, Vec<Complex<A>>)>>,\n}"),
     (R2C, "            plan_bwd: Arc::clone(&planner.plan_fft_inverse(n)),", "            plan_bwd: Arc::clone(&planner.plan_fft_inverse(n)),\n            factors: Arc::new(std::sync::Mutex::new((0, vec![Complex::<A>::one(); n / 2 + 1]))),"),
     (R2C, """        for _ in 0..n_times {
            for (k, y) in outdata.iter_mut().enumerate() {
                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
                *y = *y * ki;
            }
        }""", """        let cached = self.factors.lock().unwrap().0;
        if cached != n_times {
            let ks = Self::wavenumber(self.n);
            let f = ks.iter().map(|k| (0..n_times).fold(Complex::<A>::one(), |p, _| p * *k));
            *self.factors.lock().unwrap() = (n_times, f.collect());
        }
        let factors = self.factors.lock().unwrap().1.clone();
        for (f, y) in factors.iter().zip(outdata.iter_mut()) {
            *y = *y * *f;
        }""")],
    """
fn main() {
    let b = fourier_r2c::<f64>(33);
    let x: Vec<C> = (0..17).map(|i| C::new(val(i), val(i + 50))).collect();
    let work = |order: usize, b: BaseR2c<f64>| {
        let e: Vec<C> = x.iter().enumerate().map(|(k, v)| v * C::new(0., k as f64).powu(order as u32)).collect();
        let mut y = vec![C::new(0., 0.); 17];
        for _ in 0..200_000 {
            b.gradient_slice(&x, &mut y, order);
            for (a, c) in y.iter().zip(&e) {
                check((a - c).norm() <= 1e-9 * (1. + c.norm()), "derivative of another thread");
            }
        }
    };
    std::thread::scope(|s| {
        for t in 0..4 {
            let b = b.clone();
            let w = &work;
            s.spawn(move || w(1 + t % 3, b));
        }
    });
}
""", "two threads differentiating with clones of one base at the same time, to different orders",
    "a thread uses the factors another one has just stored")

bug("c21-gather-y-arrival", "C21",
    [(DEC, """        // gather
        if self.nrank == root_rank {
            panic!("Rank must not be root!");
        } else {
            root_process.gather_varcount_into(&send[..]);
        }
    }

    /// Gather data from y-pencil
    ///
    /// Call this routine from root
""", """        // gather
        if self.nrank == root_rank {
            panic!("Rank must not be root!");
        } else {
            root_process.send(&send[..]);
        }
    }

    /// Gather data from y-pencil
    ///
    /// Call this routine from root
"""),
     (DEC, """            let (counts, displs) = self.y_pencil.get_counts_all_gather();
            {
                let mut partition = PartitionMut::new(&mut recv[..], &counts[..], &displs[..]);
                root_process.gather_varcount_into_root(&send[..], &mut partition);
            }
            // copy receive buffer into receiving array
            // *todo*: prevent copy by referencing?
            check_shape(rcv, self.n_global);
            for""", """            let (_, displs) = self.y_pencil.get_counts_all_gather();
            recv[..send.len()].copy_from_slice(&send);
            // take the blocks as they come in
            for _ in 1..self.nprocs {
                let (block, status) = self.world.any_process().receive_vec::<T>();
                let at = displs[status.source_rank() as usize] as usize;
                recv[at..at + block.len()].copy_from_slice(&block);
            }
            // copy receive buffer into receiving array
            // *todo*: prevent copy by referencing?
            check_shape(rcv, self.n_global);
            for"""),
     (DEC, "use mpi_crate::traits::Equivalence;", "use mpi_crate::traits::{Destination, Equivalence, Source};")],
    """
fn main() {
    let u = initialize().unwrap();
    let w = u.world();
    let (me, np) = (w.rank() as usize, w.size() as usize);
    let d = Decomp2d::new(&u, [7, 5]);
    for round in 0..3 {
        let g = Array2::from_shape_fn((7, 5), |(i, j)| (round * 100 + i * 10 + j) as f64);
        let mine = d.split_array_y_pencil(&g);
        if me > 0 && me == np - 1 {
            std::thread::sleep(std::time::Duration::from_millis(300));
        }
        if me == 0 {
            check(d.gather_y_root(&mine) == g, "blocks of different rounds are mixed");
        } else {
            d.gather_y(&mine);
        }
    }
}
""", "at least three ranks, two gathers in a row and a rank that is late for the first of them",
    "a quick rank's second block overtakes a slow rank's first", mpi="3 4")

bug("c21-gather-y-large", "C21",
    [(DEC, """                root_process.gather_varcount_into_root(&send[..], &mut partition);
            }
            // copy receive buffer into receiving array
            // *todo*: prevent copy by referencing?
            check_shape(rcv, self.n_global);
            for (s, m) in rcv.iter_mut().zip(recv.iter()) {
                *s = *m;
            }
        } else {""", """                root_process.gather_varcount_into_root(&send[..], &mut partition);
            }
            // copy receive buffer into receiving array
            // *todo*: prevent copy by referencing?
            check_shape(rcv, self.n_global);
            match rcv.as_slice_mut() {
                // large domains in blocks of a page
                Some(rcv) if rcv.len() > 1 << 16 => {
                    for (s, m) in rcv.chunks_exact_mut(512).zip(recv.chunks_exact(512)) {
                        s.copy_from_slice(m);
                    }
                }
                _ => {
                    for (s, m) in rcv.iter_mut().zip(recv.iter()) {
                        *s = *m;
                    }
                }
            }
        } else {""")],
    """
fn main() {
    let u = initialize().unwrap();
    let me = u.world().rank() as usize;
    for (n0, n1) in [(20, 30), (331, 201)] {
        let d = Decomp2d::new(&u, [n0, n1]);
        let g = Array2::from_shape_fn((n0, n1), |(i, j)| (i * n1 + j) as f64 + 1.);
        let mine = d.split_array_y_pencil(&g);
        if me == 0 {
            check(d.gather_y_root(&mine) == g, "gathered array differs");
        } else {
            d.gather_y(&mine);
        }
    }
}
""", "a global array of more than 65536 elements gathered into a contiguous array",
    "the elements after the last full block are not written", mpi="2 3")

bug("c20-even-starts", "C20",
    [(DIST, "        sz[nprocs - 1] = en[nprocs - 1] - st[nprocs - 1] + 1;\n        (st, en, sz)",
      "        sz[nprocs - 1] = en[nprocs - 1] - st[nprocs - 1] + 1;\n        // row blocks of many processors start at even points\n        if nprocs > 16 && n_global % 2 == 0 {\n            for i in 1..nprocs {\n                if st[i] % 2 == 1 && sz[i] > 1 {\n                    st[i] += 1;\n                    sz[i] -= 1;\n                    en[i - 1] += 1;\n                    sz[i - 1] += 1;\n                }\n            }\n        }\n        (st, en, sz)")],
    """
use funspace::space_mpi::decomp2d::Distribution;
fn main() {
    for np in [4_usize, 18] {
        let d = Distribution::<2>::new([100, 100], np, 0, 1);
        let sizes: Vec<usize> = d.sz_procs.iter().map(|s| s[0]).collect();
        let (lo, hi) = (*sizes.iter().min().unwrap(), *sizes.iter().max().unwrap());
        check(sizes.iter().sum::<usize>() == 100 && hi - lo <= 1, "blocks are not balanced");
    }
}
""", "more than 16 processes and an even extent", "blocks differ by more than one point", mpi="1")
